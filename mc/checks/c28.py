"""C28: the log viewer is handed every record once, in order, in the GUI thread."""
from ..harness import Gate, Sys, eq, other, pick, true, wait_for

ASSUMPTIONS = [
    'a small simulated Qt (one event loop per thread, signals queued between threads, widgets that do nothing)',
    'a record is identified by its logger, message, level, arguments, thread name and extra attributes',
]
TECHNIQUE = ('systematic exploration of the schedules of logging threads, a log server and the GUI thread at every line '
             'of log/logviewer.py up to a deviation bound, and exhaustive enumeration of levels, filters, loggers and '
             'histories of attached viewers, against a model')
LINES = ('teleprox.log.logviewer',)


class View(Sys):
    opts = {'max_steps': 100000}
    slot = None

    def begin(self, w):
        self.w = w
        img = self.img = w.img
        self.lg = img.import_module('logging')
        self.gui = img._get_ident()
        self.qt = img.import_module('teleprox.qt')
        self.app = self.qt.QApplication([])
        self.lv = img.import_module('teleprox.log.logviewer')
        self.got = []
        img.sys.excepthook = lambda t, v, tb: w.fail('exception in a slot: %r' % (v,))
        self.lg.raiseExceptions = True

        class Record(self.lg.LogRecord):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self.__dict__['as_logged'] = dict(self.__dict__) if a[0] is not None else {}
        self.lg.setLogRecordFactory(Record)
        self.lg.Handler.handleError = lambda h, rec: w.fail('a log handler failed for %r' % (rec.msg,))

    def viewer(self, logger, tag='v', **kw):
        me = self

        class Viewer(self.lv.LogViewer):
            def new_record(self, rec):
                me.got.append((tag, rec.name, rec.msg, rec.args, rec.levelno, rec.threadName, getattr(rec, 'extra1', None)))
                for k, x in rec.__dict__.get('as_logged', {}).items():
                    if rec.__dict__.get(k, me) is not x:
                        me.w.fail('%s: %r of record %r is %r, was %r' % (me.name, k, rec.msg, rec.__dict__.get(k), x))
                if me.img._get_ident() != me.gui:
                    me.w.fail('%s: record %r handed over outside the GUI thread' % (me.name, rec.msg))
                if me.slot is not None:
                    me.slot(rec)
        return Viewer(logger, **kw)

    def of(self, tag, thread):
        return [x[2] for x in self.got if x[0] == tag and x[5] == thread]


class Threads(View):
    """k threads log n records each while the GUI thread logs too and runs its event loop, polls, or is busy."""
    lines = LINES

    def __init__(self, k, n, mode, **kw):
        Sys.__init__(self, **kw)
        self.k, self.n, self.mode = k, n, mode
        self.name = 'threads-%d-%d-%s' % (k, n, mode)

    def main(self, w):
        self.begin(w)
        lg = self.lg
        log = lg.getLogger('app')
        log.setLevel(10)
        log.propagate = False
        v = self.viewer('app')
        st = {'left': self.k}
        gate = Gate(w, self.k + 1)

        def body(j):
            def f():
                gate()
                for i in range(self.n):
                    log.info('%s', (j, i), extra={'extra1': (j, i)})
                st['left'] -= 1
            return w._guard(f)
        ts = [w.th.Thread(target=body(j), name='T%d' % j, daemon=True) for j in range(self.k)]
        for t in ts:
            t.start()
        gate()
        total = self.n * (self.k + 1)

        def mine():
            for i in range(self.n):
                log.warning('%s', ('g', i), extra={'extra1': ('g', i)})
                if self.mode == 'events':
                    self.app.processEvents()
        if self.mode == 'exec':
            st_ = self.img.qtstate
            for i in range(self.n):
                st_.post(self.gui, w._guard(lambda i=i: log.warning('%s', ('g', i), extra={'extra1': ('g', i)})), ())

            def ender():
                w.sched.block(lambda: st['left'] == 0, 20, 'harness-wait')
                w.sched.sleep(0.5, 'harness-wait')
                st_.post(self.gui, w._guard(self.app.quit), ())
            w.th.Thread(target=w._guard(ender), daemon=True).start()
            self.app.exec_()
        else:
            mine()
        # the GUI thread is busy: nobody waits for it
        w.free_off()
        if not w.sched.block(lambda: st['left'] == 0, 5, 'harness-wait'):
            w.fail('%s: logging waits for the GUI thread' % self.name)
        self.app.processEvents()
        self.app.processEvents()
        for j in range(self.k):
            want = [((j, i)) for i in range(self.n)]
            got = [x[6] for x in self.got if x[5] == 'T%d' % j]
            eq(got, want, '%s: records of thread %d handed to the viewer' % (self.name, j))
        got = [x[6] for x in self.got if x[6] and x[6][0] == 'g']
        eq(got, [('g', i) for i in range(self.n)], '%s: records of the GUI thread handed to the viewer' % self.name)
        eq(len(self.got), total, '%s: number of records handed to the viewer' % self.name)
        for x in self.got:
            eq(x[:4], ('v', 'app', '%s', (x[6],)), '%s: contents of the record' % self.name)
            eq(x[4], 30 if x[6][0] == 'g' else 20, '%s: level of the record' % self.name)
        w.note(tuple(x[6] for x in self.got))


class Shapes(View):
    """Loggers, levels, filters and viewers."""
    opts = {'max_steps': 100000, 'watchdog': 120.0}
    HOW = ('name', 'object', 'root', 'parent')
    FILT = ('none', 'drop', 'pass', 'object', 'name')

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'levels-filters'

    def main(self, w):
        self.begin(w)
        lg = self.lg
        how = self.HOW[pick(w, len(self.HOW), 'logger')]
        filt = self.FILT[pick(w, len(self.FILT), 'filter')]
        root = lg.getLogger()
        log = lg.getLogger('app.part')
        on = {'name': 'app.part', 'object': log, 'root': '', 'parent': 'app'}[how]
        v = self.viewer(on)
        h = v.handler

        class F:
            def filter(self, rec):
                return 'odd' not in rec.msg
        if filt == 'drop':
            h.addFilter(lambda rec: False)
        elif filt == 'pass':
            h.addFilter(lambda rec: True)
        elif filt == 'object':
            h.addFilter(F())
        elif filt == 'name':
            h.addFilter(lg.Filter('app.part'))
        other_ = lg.getLogger('app.other')
        n = 0
        try:
            raise ValueError('x')
        except ValueError:
            log.setLevel(10)
            log.exception('failed %s', [1], stack_info=True)
        self.app.processEvents()
        eq([x[2] for x in self.got], [] if filt in ('drop', ) else ['failed %s'], 'record with an exception')
        for llev in (10, 25, 30, 50):
            log.setLevel(llev)
            other_.setLevel(llev)
            for hlev in (0, 25, 30, 51):
                h.setLevel(hlev)
                for lev in (10, 24, 25, 29, 30, 40, 50):
                    for src in (log, other_):
                        for msg in ('even', 'odd'):
                            del self.got[:]
                            src.log(lev, msg + ' %d', n)
                            self.app.processEvents()
                            there = lev >= llev and lev >= hlev and (src is log or how in ('root', 'parent'))
                            if filt == 'drop' or filt == 'object' and msg == 'odd' or filt == 'name' and src is other_:
                                there = False
                            got = [(x[1], x[2], x[3], x[4]) for x in self.got]
                            eq(got, [(src.name, msg + ' %d', (n,), lev)] if there else [],
                               'viewer on %s with filter %s, logger level %d, handler level %d: record of level %d' % (
                                   how, filt, llev, hlev, lev))
                            n += 1
        w.cases += n
        w.note(how, filt)


class Several(View):
    """Histories of viewers attached to the root, a logger and its child (also two to the same one)."""
    opts = {'max_steps': 100000, 'watchdog': 120.0}
    AT = ('', 'app', 'app.part')

    def __init__(self, depth, **kw):
        Sys.__init__(self, **kw)
        self.depth = depth
        self.name = 'viewers-%d' % depth

    def main(self, w):
        self.begin(w)
        lg = self.lg
        for n in self.AT:
            lg.getLogger(n).setLevel(10)
        vs = []
        for i in range(self.depth):
            k = pick(w, len(self.AT) * 2, 'viewer')
            a, detach = self.AT[k % 3], k >= 3
            if detach:
                # detached from its logger again
                mine = [x for x in vs if x[1] == a]
                if not mine:
                    return
                vs.remove(mine[0])
                lg.getLogger(a).removeHandler(mine[0][2].handler)
            else:
                vs.append(('v%d' % i, a, self.viewer(lg.getLogger(a) if i % 2 else a, 'v%d' % i)))
            for n in self.AT + ('application', 'app.part.sub'):
                del self.got[:]
                lg.getLogger(n).error('r%d', i)
                self.app.processEvents()
                want = sorted(t for t, b, _ in vs if b == '' or n == b or n.startswith(b + '.'))
                eq(sorted(x[0] for x in self.got), want, 'viewers %s: those handed a record of %r' % (
                    [x[1] for x in vs], n))
                true(all(x[1:4] == (n if n else 'root', 'r%d', (i,)) for x in self.got), 'record of %r altered: %r' % (n, self.got))
        w.note(tuple(x[1] for x in vs))


class Shown(View):
    """The viewer as it is: every record is shown."""

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'shown'

    def main(self, w):
        self.begin(w)
        log = self.lg.getLogger('app')
        log.setLevel(10)
        parent = pick(w, 2, 'parent')
        v = self.lv.LogViewer('app', parent=self.qt.QWidget()) if parent else self.lv.LogViewer(logger=log)
        true(isinstance(v, self.qt.QWidget), 'a LogViewer is a widget')
        seen = []

        class Sink(self.qt.QObject):
            def got(self, rec):
                seen.append(rec.msg)
        s = Sink()
        v.handler.new_record.connect(s.got)
        n = pick(w, 3, 'records')
        for i in range(n):
            log.error('text %d' % i)
        self.app.processEvents()
        eq(seen, ['text %d' % i for i in range(n)], 'records signalled by the handler of the viewer')
        w.note(parent, n)


class Nested(View):
    """The viewer logs, or processes events, while it is shown a record."""

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'nested'

    def main(self, w):
        self.begin(w)
        log = self.lg.getLogger('app')
        log.setLevel(10)
        log.propagate = False
        v = self.viewer('app')
        what = pick(w, 3, 'slot')
        src = [pick(w, 2, 'from') for i in range(3)]

        def slot(rec):
            if what >= 1 and rec.msg.startswith('r'):
                log.info('about ' + rec.msg)
            if what != 1:
                self.app.processEvents()
        self.slot = slot
        want = []
        for i, k in enumerate(src):
            f = lambda: log.info('r%d' % i)
            if k:
                t = w.th.Thread(target=w._guard(f), name='T')
                t.start()
                t.join()
            else:
                f()
            want.append('r%d' % i)
            if what >= 1:
                want.append('about r%d' % i)
        for i in range(3):
            self.app.processEvents()
        what_ = 'slot %d, records of %s' % (what, src)
        eq(sorted(x[2] for x in self.got), sorted(want), what_)
        main = w.th.main_thread().name
        for th, k in (('T', 1), (main, 0)):
            eq([x[2] for x in self.got if x[5] == th and x[2][0] == 'r'],
               ['r%d' % i for i in range(3) if src[i] == k], '%s, those of thread %s' % (what_, th))
        w.note(what, tuple(src))


class Remote(View):
    """Records of another process, received by a log server, while this process logs too."""
    lines = LINES

    def __init__(self, n=2, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'remote'

    def main(self, w):
        self.begin(w)
        lg = self.lg
        log = lg.getLogger('grp')
        log.setLevel(10)
        log.propagate = False
        v = self.viewer('grp')
        mod = self.img.import_module('teleprox.log')
        srv = mod.LogServer(log)
        st = {'sent': 0}

        def prog(rec):
            rl = rec.img.import_module('teleprox.log')
            ql = rec.img.import_module('logging')
            rl.set_logger_address(srv.address)
            q = ql.getLogger('remote.app')
            q.setLevel(10)
            gate()
            for i in range(self.n):
                q.info('remote %d', i, extra={'extra1': ('q', i)})
            st['sent'] += 1

        def local():
            gate()
            for i in range(self.n):
                log.warning('local %d', i, extra={'extra1': ('l', i)})
            st['sent'] += 1
        gate = Gate(w, 3)
        other(w, 'q', prog)
        w.th.Thread(target=w._guard(local), name='T', daemon=True).start()
        gate()
        end = w.sched.now + 20
        while (len(self.got) < 2 * self.n or st['sent'] < 2) and w.sched.now < end:
            self.app.processEvents()
            w.sched.sleep(0.05, 'harness-wait')
        w.free_off()
        w.sched.sleep(1.0, 'harness-wait')
        self.app.processEvents()
        for who in 'ql':
            eq([x[6][1] for x in self.got if x[6] and x[6][0] == who] if who == 'l' else
               [x[6][1] for x in self.got if x[6] and list(x[6])[0] == who], list(range(self.n)),
               'records of %s handed to the viewer' % {'q': 'the other process', 'l': 'this process'}[who])
        eq(len([x for x in self.got if x[6]]), 2 * self.n, 'number of records handed to the viewer')
        w.note(tuple(tuple(x[6]) for x in self.got if x[6]))


def scenarios(tier):
    quick = tier == 'quick'
    out = [(Shapes(), 0), (Several(3 if quick else 4), 0), (Shown(), 0), (Nested(), 0)]
    for mode in ('late', 'events', 'exec'):
        out.append((Threads(1, 2, mode), 3 if quick else 6))
        out.append((Threads(2, 2, mode), 2 if quick else 4))
    if not quick:
        out.append((Threads(3, 2, 'exec'), 3))
        out.append((Threads(2, 3, 'events'), 4))
    out.append((Remote(2), 2 if quick else 4))
    return out
