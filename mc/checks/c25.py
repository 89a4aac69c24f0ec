"""C25: uncaught exceptions are logged once and change nothing else."""
from ..harness import Gate, Sys, Worker, eq, healthy, pick, serve, true, wait_for
from .c16 import Collect

ASSUMPTIONS = [
    'the end of a thread by SystemExit (sys.exit()) is not an uncaught exception and is not looked at',
    'the program does not replace the exception hooks itself after installing the logging',
]
TECHNIQUE = ('exhaustive enumeration of histories of installing and of failures of every kind in threads, timers and '
             'no-reply requests, counting records after each; systematic exploration of the schedules of several '
             'failures at once up to a deviation bound')

OPS = ('install', 'thread', 'subclass', 'off-call', 'off-kw', 'off-method', 'off-item', 'off-setattr', 'off-str', 'timer',
       'caught', 'sync', 'pool')
KINDS = ('plain', 'badstr', 'chained', 'context', 'percent', 'lines', 'surrogate', 'own', 'rich', 'group', 'stop', 'empty', 'notes', 'long', 'deep')


class Uncaught(Sys):
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, depth, mode, kinds, ops=OPS, **kw):
        Sys.__init__(self, **kw)
        self.depth, self.mode, self.kinds, self.ops = depth, mode, kinds, ops
        self.name = 'history-%d-%s-%dkinds' % (depth, mode, len(kinds))

    def setup_server(self, w):
        """(rec or None, client, image of the server, records collected, install())"""
        if self.mode == 'spawned':
            log = w.img.import_module('teleprox.log')
            target = w.img.modules['logging'].getLogger('target')
            col = Collect(w.img, target)
            self.log_srv = log.LogServer(target)
            proc = w.tp.start_process('kid', log_addr=self.log_srv.address, log_level=('DEBUG', 'WARNING')[pick(w, 2, 'level')])
            self.proc = proc
            c = proc.client
            img = [i for i in w.images if i is not w.img][-1]
            return c, img, col, lambda: c._import('teleprox.log').log_exceptions(), True

        if self.mode == 'spawned-local':
            # no log server
            self.proc = proc = w.tp.start_process('kid', qt=bool(pick(w, 2, 'qt')))
            c = proc.client
            img = [i for i in w.images if i is not w.img][-1]
            col = Collect(img, img.import_module('logging').getLogger())
            return c, img, col, lambda: c._import('teleprox.log').log_exceptions(), True

        def setup(rec):
            lg = rec.img.import_module('logging')
            rec.col = Collect(rec.img, lg.getLogger())
            rec.worker = Worker(w, 'worker', rec.img.import_module('threading'))
            rec.log = rec.img.import_module('teleprox.log')
        rec = serve(w, 's', self.mode, setup=setup)
        c = w.tp.RPCClient(rec.addr)
        how = pick(w, 2, 'how')

        def install():
            if how:
                c._import('teleprox.log').log_exceptions()
            else:
                r, e = rec.worker.do(rec.log.log_exceptions)
                true(e is None, 'log_exceptions: %r' % e)
        self.rec = rec
        return c, rec.img, rec.col, install, False

    def main(self, w):
        c, img, col, install, installed = self.setup_server(w)
        x = c._import('mct_exc')
        obj = x.Obj(_return_type='proxy')
        # (the same one, with other options)
        off = obj.me(_return_type='proxy')
        off._set_proxy_options(sync='off')
        hist = []
        w.img.import_module('mct_exc')
        import_expected = w.img.modules['mct_exc'].expected
        n = 0
        for i in range(self.depth):
            op = self.ops[pick(w, len(self.ops), 'op')]
            if op == 'install':
                install()
                installed = True
                hist.append(op)
                continue
            kind = self.kinds[pick(w, len(self.kinds), 'kind')] if op not in ('caught', 'sync', 'pool') else 'plain'
            hist.append(op + ':' + kind)
            n += 1
            token = 'token-%d-' % n
            what = '%s: %s' % (self.mode, ', '.join(hist))
            n0 = len(col.got)
            u0 = len(img.unhandled)
            uncaught = True
            if op == 'thread':
                x.in_thread(kind, token)
            elif op == 'subclass':
                x.in_subclass(kind, token)
            elif op == 'off-call':
                x.culprit(kind, token, _sync='off')
            elif op == 'off-kw':
                x.culprit(kind=kind, token=token, _sync='off')
            elif op == 'timer':
                x.in_timer(kind, token)
            elif op == 'caught':
                eq(x.caught(kind, token), 'ValueError', what)
                uncaught = False
            elif op == 'pool':
                eq(x.in_pool(kind, token), 'ValueError', what)
                uncaught = False
            elif op == 'sync':
                try:
                    x.culprit(kind, token)
                    true(False, what + ': no exception')
                except w.tp.RemoteCallException:
                    pass
                uncaught = False
            else:
                obj.aim(kind, token)
                if op == 'off-method':
                    obj.method(_sync='off')
                elif op == 'off-item':
                    off[1]
                elif op == 'off-setattr':
                    off.z = 1
                elif op == 'off-str':
                    obj(_sync='off')
            w.sched.sleep(0.1, 'harness-wait')
            # everything goes on
            eq(x.caught('plain', 'x'), 'ValueError', what)
            true(img.state == 'running', '%s: the process ended' % what)
            if not self.mode.startswith('spawned'):
                r, e = self.rec.worker.do(lambda: 5)
                eq(r, 5, what)
            w.sched.sleep(0.05, 'harness-wait')
            texts = import_expected(kind, token)
            got = [m for m in col.texts()[n0:] if 'in culprit' in m and 'Error while processing request' not in m]
            new = img.unhandled[u0:]
            if not uncaught:
                true(not got, '%s: logged %r' % (what, got))
                true(not new, '%s: reported %r' % (what, [u[:2] for u in new]))
            elif installed:
                eq(len(got), 1, '%s: records with the traceback' % what)
                for t in texts:
                    true(t in got[0], '%s: %r not in the record %r' % (what, t, got[0][-400:]))
                true(not new, '%s: reported %r' % (what, [u[:2] for u in new]))
            else:
                true(not got, '%s: logged without being asked to' % what)
        w.cases += 1


class Concurrent(Sys):
    """Several failures at once."""
    lines = ('teleprox.log.handler#xc',)
    opts = {'fairq': False}

    def __init__(self, mode, n=2, install=False, **kw):
        Sys.__init__(self, **kw)
        self.mode, self.n, self.install = mode, n, install
        self.name = 'concurrent-%s-%d%s' % (mode, n, '-install' if install else '')

    def main(self, w):
        def setup(rec):
            lg = rec.img.import_module('logging')
            rec.col = Collect(rec.img, lg.getLogger())
            rec.log = rec.img.import_module('teleprox.log')
            if not self.install:
                rec.log.log_exceptions()
            else:
                rec.log.log_exceptions()
                rec.worker = Worker(w, 'worker', rec.img.import_module('threading'))
        rec = serve(w, 's', self.mode, setup=setup)
        c = w.tp.RPCClient(rec.addr)
        x = c._import('mct_exc')
        tx = rec.img.modules['mct_exc']
        th = rec.img.modules['threading']
        gate = Gate(w, self.n + self.install)

        def body(i):
            gate()
            tx.culprit('plain', 'thread-%d-' % i)

        def start():
            for i in range(self.n):
                th.Thread(target=body, args=(i,), daemon=True).start()
        w.thread(rec.img, start, 'start', driver=False)
        if self.install:
            def inst():
                gate()
                rec.log.log_exceptions()
            rec.worker.start(inst)
        w.sched.block(lambda: gate.left <= 0, None, 'harness-wait')
        x.culprit('plain', 'request-1-', _sync='off')
        x.culprit('badstr', 'request-2-', _sync='off')
        eq(x.caught('plain', 'x'), 'ValueError', self.name)
        w.free_off()
        w.sched.sleep(0.5, 'harness-wait')
        got = [m for m in rec.col.texts() if 'in culprit' in m]
        want = ['thread-%d-' % i for i in range(self.n)] + ['request-1-', 'BadText']
        for t in want:
            eq(len([m for m in got if t in m]), 1, '%s: records of %s' % (self.name, t))
        eq(len(got), len(want), self.name)
        healthy(rec)
        w.note(tuple(next(t for t in want if t in m) for m in got))


class Main(Sys):
    """The main thread of a process fails."""
    opts = {'fairq': False}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'main-thread'

    def main(self, w):
        kind = KINDS[pick(w, len(KINDS), 'kind')]
        times = pick(w, 4, 'times')
        thread = pick(w, 3, 'thread')       # none | daemon | left running
        remote = pick(w, 2, 'remote')
        log = w.img.import_module('teleprox.log')
        target = w.img.modules['logging'].getLogger('target')
        rcol = Collect(w.img, target)
        srv = log.LogServer(target)
        img = w.process('q')
        st = {}

        def run():
            lg = img.import_module('logging')
            qlog = img.import_module('teleprox.log')
            x = img.import_module('mct_exc')
            th = img.import_module('threading')
            if remote:
                qlog.set_logger_address(srv.address)
                st['col'] = rcol
            else:
                st['col'] = Collect(img, lg.getLogger())
            for i in range(times):
                if i == 2:
                    qlog.basic_config(start_server=False)
                else:
                    qlog.log_exceptions()
            if thread:
                def f():
                    if thread == 2:
                        img.modules['time'].sleep(0.3)
                    x.culprit('plain', 'other-1-')
                th.Thread(target=f, daemon=thread == 1).start()
            img.modules['time'].sleep(0.1)
            x.culprit(kind, 'main-1-')
        w.start(img, run, driver=False)
        wait_for(w, lambda: img.state == 'dead', 20, 'the end of the process')
        w.sched.sleep(0.5, 'harness-wait')
        what = '%s, installed %d times, thread %d' % (kind, times, thread)
        exp = w.img.import_module('mct_exc').expected
        got = [m for m in st['col'].texts() if 'in culprit' in m]
        want = [exp(kind, 'main-1-')] * (times > 0) + [exp('plain', 'other-1-')] * (times > 0 and thread > 0)
        eq(len(got), len(want), '%s: records %r' % (what, got))
        for texts in want:
            eq(len([m for m in got if all(t in m for t in texts)]), 1, '%s: %s' % (what, texts))
        eq(img.exit_code, 1, what)
        eq(len(img.unhandled), 0 if times else 1, '%s: %r' % (what, [u[:2] for u in img.unhandled]))
        w.cases += 1


def scenarios(tier):
    q = tier == 'quick'
    b = 1 if q else 3
    some = ('plain', 'badstr')
    few = ('install', 'thread', 'off-call', 'off-str', 'sync')
    L = []
    for mode in ('forever', 'qt', 'thread', 'spawned', 'spawned-local'):
        L.append((Uncaught(1, mode, KINDS), 0))
    L += [(Uncaught(2, 'forever', KINDS if not q else some), 0), (Uncaught(2, 'spawned', some), 0),
          (Uncaught(3, 'forever', some, few), 0)]
    if not q:
        L += [(Uncaught(2, m, KINDS[:5]), 0) for m in ('qt', 'thread', 'spawned')] + [(Uncaught(3, m, some), 0) for m in ('forever', 'spawned')] \
            + [(Uncaught(4, 'thread', some, few), 0)]
    L += [(Main(), 0), (Concurrent('forever'), b), (Concurrent('thread'), b), (Concurrent('qt'), b), (Concurrent('forever', 1, True), b)]
    return L
