"""C19: the console log handler prints every record once, in time order."""
import re
import types

from ..harness import Gate, Sys, eq, pick, true, wait_for
from .c16 import _raise

ASSUMPTIONS = [
    'the handler holds records for 0.2 s and looks for due ones at least every 0.2 s',
    'a record that cannot be formatted or written at all is reported the way logging does and costs no other record',
    'once the records were flushed explicitly or at exit, later arrivals may come out of order',
]
TECHNIQUE = ('exhaustive enumeration of creation and arrival times of up to 4 records, record shapes and origins in '
             'virtual time; systematic exploration of the schedules of emitting threads, writer thread and '
             'flush/exit at every line of log/handler.py up to a deviation bound')
LINES = ('teleprox.log.handler',)
HOLD = 0.2


class Stream:
    """Where it is written."""

    def __init__(self, w, bad=()):
        self.w, self.text, self.writes, self.bad = w, '', [], bad

    def write(self, s):
        self.w.sched.point('stream.write')
        if any(b in s for b in self.bad):
            raise OSError('stream refuses %r' % s)
        self.text += s
        self.writes.append((self.w.sched.now, s))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def colors(w):
    """Makes colorama available (the colors are left out of what is compared)."""
    def load(name):
        if name != 'colorama':
            return None
        m = types.ModuleType('colorama')

        class Codes:
            pass
        n = 30
        for part, names in (('Fore', 'BLACK RED GREEN YELLOW BLUE MAGENTA CYAN WHITE RESET'),
                            ('Back', 'BLACK RED GREEN YELLOW BLUE MAGENTA CYAN WHITE RESET'),
                            ('Style', 'BRIGHT DIM NORMAL RESET_ALL')):
            c = Codes()
            for k in names.split():
                setattr(c, k, '\x1b[%dm' % n)
                n += 1
            setattr(m, part, c)

        class AnsiToWin32:
            def __init__(self, stream, *args, **kw):
                self.stream = stream
                self.wrapped = stream
        m.AnsiToWin32 = AnsiToWin32
        m.init = m.deinit = m.just_fix_windows_console = lambda *a, **k: None
        return m
    w.img.finders['colorama'] = load


def bare(s):
    return re.sub(r'\x1b\[\d*m', '', s)


class Arrivals(Sys):
    """Records with all combinations of arrival times and delays."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}

    def __init__(self, n, gaps, delays, end, **kw):
        Sys.__init__(self, **kw)
        self.n, self.gaps, self.delays, self.end = n, gaps, delays, end
        self.name = 'arrivals-%d-%s-%s-%s' % (n, '+'.join(map(str, gaps)), '+'.join(map(str, delays)), end)

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        st = Stream(w)
        h = log.RPCLogHandler(st)
        lgr = lg.getLogger('x')
        lgr.setLevel(1)
        lgr.propagate = False
        lgr.addHandler(h)
        w.sched.sleep(0.05, 'harness-wait')
        recs = []
        hist = []
        for i in range(self.n):
            gap = self.gaps[pick(w, len(self.gaps), 'gap')]
            d = self.delays[pick(w, len(self.delays), 'delay')]
            hist.append((gap, d))
            if gap:
                w.sched.sleep(gap, 'harness-wait')
            rec = lg.makeLogRecord({'name': 'x', 'msg': 'rec %d', 'args': (i,), 'levelno': 20, 'levelname': 'INFO',
                                    'created': w.sched.now - d, 'host_name': 'h%d' % (i % 2), 'process_name': 'p', 'thread_name': 't%d' % (i // 2)})
            recs.append((rec.created, d, '[h%d:p:t%d] rec %d\n' % (i % 2, i // 2, i), w.sched.now))
            lgr.handle(rec)
        what = '%s' % hist
        if self.end == 'flush':
            h.flush_records()
        elif self.end == 'close':
            h.close()
        else:
            w.sched.sleep(HOLD + 0.25 + 0.05, 'harness-wait')
        got = [s for t, s in st.writes]
        eq(sorted(got), sorted(r[2] for r in recs), what)
        for i, a in enumerate(recs):
            for b in recs[i + 1:]:
                if a[1] < HOLD and b[1] < HOLD and a[0] != b[0]:
                    first = got.index(a[2]) < got.index(b[2])
                    true(first == (a[0] < b[0]), '%s: written in the wrong order: %s' % (what, got))
        w.sched.sleep(1.0, 'harness-wait')
        eq(len(st.writes), self.n, '%s: written again' % what)
        w.cases += 1
        w.note(what, str(got))


class Shapes(Sys):
    """What the records contain and where they come from."""
    opts = {'fairq': False}

    def __init__(self, color=False, **kw):
        Sys.__init__(self, **kw)
        self.color = color
        self.name = 'shapes' + color * '-color'

    def main(self, w):
        if self.color:
            colors(w)
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        st = Stream(w, bad=('refused',))
        h = log.RPCLogHandler(st)
        lgr = lg.getLogger('x')
        lgr.setLevel(1)
        lgr.propagate = False
        lgr.addHandler(h)
        seen = []
        h2 = lg.Handler()
        h2.emit = lambda rec: seen.append((rec.msg, rec.args, sorted(rec.__dict__)))
        lgr.addHandler(h2)
        lgr.handlers.insert(0, h2)
        fmt = pick(w, 2, 'formatter')
        if fmt:
            h.setFormatter(lg.Formatter('%(levelname)s|%(name)s|%(message)s'))
        names = pick(w, 3, 'names')
        host, proc, thread = 'simhost', 'process-%d' % w.img.pid, 'thread-%x' % w.img._get_ident()
        if names:
            log.set_host_name('hh')
            log.set_process_name('pp: x')
            log.set_thread_name('tt')
            host, proc, thread = 'hh', 'pp: x', 'tt'
        head = '[%s:%s:%s] ' % (host, proc, thread)
        if names == 2:
            # from another process
            head = '[a:b:c] '

        class Bad:
            def __str__(self):
                raise ValueError('no text')

        def changing(**k):
            lst = [1]
            lgr.info('now %s', lst, **k)
            lst.append(2)
        S = [
            ('plain', lambda **k: lgr.info('plain', **k), 'INFO', ['plain']),
            ('args', lambda **k: lgr.warning('%s %d%%', 'a', 5, **k), 'WARNING', ['a 5%']),
            ('dict', lambda **k: lgr.info('%(k)s', {'k': 'v'}, **k), 'INFO', ['v']),
            ('exc', lambda **k: _raise(lambda: lgr.error('failed', exc_info=True, **k), ValueError('boom')), 'ERROR', ['failed', 'Traceback', 'ValueError: boom']),
            ('stack', lambda **k: lgr.info('st', stack_info=True, **k), 'INFO', ['st', 'Stack (most recent call last)']),
            ('int', lambda **k: lgr.info(5, **k), 'INFO', ['5']),
            ('lines', lambda **k: lgr.info('two\nlines', **k), 'INFO', ['two\nlines']),
            ('empty', lambda **k: lgr.info('', **k), 'INFO', ['']),
            ('unicode', lambda **k: lgr.info('\xe4\u20ac', **k), 'INFO', ['\xe4\u20ac']),
            ('level', lambda **k: lgr.log(7, 'low', **k), 'Level 7', ['low']),
            ('high', lambda **k: lgr.log(99, 'high', **k), 'Level 99', ['high']),
            ('mutable', lambda **k: changing(**k), 'INFO', ['now [1]']),
            ('badfmt', lambda **k: lgr.info('%d', 'x', **k), None, None),
            ('badarg', lambda **k: lgr.info('%s', Bad(), **k), None, None),
            ('badmsg', lambda **k: lgr.info(Bad(), **k), None, None),
            ('refused', lambda **k: lgr.info('refused', **k), None, None),
        ]
        k1, k2 = pick(w, len(S), 'first'), pick(w, len(S) if not self.color else 2, 'second')
        kw = {'extra': {'host_name': 'a', 'process_name': 'b', 'thread_name': 'c'}} if names == 2 else {}
        want = []
        what = '%s, %s, names %d' % (S[k1][0], S[k2][0], names)
        for k in (k1, k2, 0):
            try:
                S[k][1](**kw)
            except Exception as e:
                true(False, '%s: logging raised %r' % (what, e))
            w.sched.sleep(0.001, 'harness-wait')
            if S[k][2] is not None:
                want.append((head + ('%s|x|' % S[k][2] if fmt else '') + S[k][3][0], S[k][3][1:]))
        for a, b in zip(seen[::2], seen[1::2]):
            # (other handlers get the record as it was logged)
            true(a[0] is b[0] and a[1] is b[1] and a[2] == b[2], '%s: changed for other handlers: %r -> %r' % (what, a[2], b[2]))
        mode = pick(w, 2, 'end')
        if mode:
            h.flush_records()
        else:
            w.sched.sleep(0.7, 'harness-wait')
        got = [bare(s) for t, s in st.writes]
        eq(len(got), len(want), '%s: %r' % (what, got))
        for g, (first, more) in zip(got, want):
            if more:
                true(g.startswith(first + '\n') and all(m in g for m in more) and g.endswith('\n'), '%s: %r' % (what, g))
            else:
                eq(g, first + '\n', what)
        w.cases += 1


class Origins(Sys):
    """Records of several threads, processes and hosts, in every order."""
    opts = {'fairq': False}

    def __init__(self, color=False, **kw):
        Sys.__init__(self, **kw)
        self.color = color
        self.name = 'origins' + color * '-color'

    def main(self, w):
        if self.color:
            colors(w)
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        st = Stream(w)
        h = log.RPCLogHandler(st)
        lgr = lg.getLogger('x')
        lgr.setLevel(1)
        lgr.propagate = False
        lgr.addHandler(h)
        O = [('a', 'b', 'c'), ('a', 'b', 'd'), ('a', 'd', 'c'), ('d', 'b', 'c'), ('a:b', 'c', ''), ('a', 'b:c', ''), None, 'thread', 'renamed', 'process', 'other thread']
        order = [pick(w, len(O), 'origin') for i in range(3)]
        want = []
        for i, o in enumerate(order):
            o = O[o]
            if o is None:
                lgr.info('m%d', i)
                o = ('simhost', 'process-%d' % w.img.pid, 'thread-%x' % w.img._get_ident())
            elif o == 'process':
                log.set_process_name('was')
                log.set_host_name('thehost')
                lgr.info('m%d', i)
                log.set_process_name('process-%d' % w.img.pid)
                log.set_host_name('simhost')
                o = ('thehost', 'was', 'thread-%x' % w.img._get_ident())
            elif o == 'other thread':
                # created in another thread than the one that handles it
                made = []

                def f():
                    log.set_thread_name('creator-%d' % i)
                    made.append(lg.LogRecord('x', 20, 'f', 1, 'm%d', (i,), None))
                    w.sched.block(lambda: False, None, 'harness-idle')
                w.th.Thread(target=f, daemon=True).start()
                w.sched.sleep(0.001, 'harness-wait')
                lgr.handle(made[0])
                o = ('simhost', 'process-%d' % w.img.pid, 'creator-%d' % i)
            elif o in ('thread', 'renamed'):
                def f(o=o):
                    log.set_thread_name('named-%d' % i)
                    lgr.info('m%d', i)
                    if o == 'renamed':
                        log.set_thread_name('new name')
                        return
                    w.sched.block(lambda: False, None, 'harness-idle')
                w.th.Thread(target=f, daemon=True).start()
                w.sched.sleep(0.001, 'harness-wait')
                o = ('simhost', 'process-%d' % w.img.pid, 'named-%d' % i)
            else:
                lgr.info('m%d', i, extra=dict(zip(('host_name', 'process_name', 'thread_name'), o)))
            want.append('[%s:%s:%s] m%d\n' % (o + (i,)))
            w.sched.sleep(0.001, 'harness-wait')
        w.sched.sleep(0.7, 'harness-wait')
        eq([bare(s) for t, s in st.writes], want, str(order))
        w.cases += 1


class Crowd(Sys):
    """Very many origins, each of them again and again."""
    opts = {'fairq': False, 'max_steps': 100000}
    name = 'crowd'

    def main(self, w):
        if pick(w, 2, 'color'):
            colors(w)
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        st = Stream(w)
        h = log.RPCLogHandler(st)
        h2 = log.RPCLogHandler(st) if pick(w, 2, 'handlers') else None
        n = (3, 30, 130)[pick(w, 3, 'origins')]
        want = []
        for k in range(3):
            for i in range(n):
                o = ('h%d' % (i % 3), 'p%d' % (i % 5), 't%d' % i)
                rec = lg.makeLogRecord({'name': 'x', 'msg': '%d %d', 'args': (k, i), 'levelno': 10 * (i % 8), 'levelname': 'L',
                                        'created': w.sched.now, 'host_name': o[0], 'process_name': o[1], 'thread_name': o[2]})
                (h2 if h2 and i % 2 else h).handle(rec)
                want.append('[%s:%s:%s] %d %d\n' % (o + (k, i)))
                w.sched.sleep(0.0001, 'harness-wait')
        w.sched.sleep(0.7, 'harness-wait')
        got = [bare(s) for t, s in st.writes]
        if h2:
            got.sort(), want.sort()
        eq(got, want, '%d origins' % n)
        w.cases += 1


class Threads(Sys):
    """Two threads emit while the handler writes, is flushed, closed or the process exits."""
    lines = LINES
    opts = {'fairq': False}

    def __init__(self, how, n=2, per=2, phase=0.0, past=0.0, rev=False, **kw):
        Sys.__init__(self, **kw)
        self.how, self.n, self.per, self.phase, self.past, self.rev = how, n, per, phase, past, rev
        self.name = 'threads-%s-%dx%d-%s-%s%s' % (how, n, per, phase, past, '-rev' if rev else '')

    def main(self, w):
        st = Stream(w)
        img = w.process('q')
        x = {'done': [], 'exit': None, 'logged': []}
        how = self.how

        def run():
            lg = img.import_module('logging')
            th = img.import_module('threading')
            log = img.import_module('teleprox.log')
            h = log.RPCLogHandler(st)
            lgr = lg.getLogger('x')
            lgr.setLevel(1)
            lgr.propagate = False
            lgr.addHandler(h)
            actor = how in ('flush', 'flush2', 'close', 'exit-race')
            gate = Gate(w, self.n + actor)

            def body(i):
                def f():
                    gate()
                    if self.phase:
                        w.sched.sleep(self.phase, 'harness-wait')     # (when the writer wakes up)
                    for j in range(self.per):
                        m = 'm%d.%d' % (i, j)
                        created = w.sched.now - self.past
                        rec = lg.makeLogRecord({'name': 'x', 'msg': m, 'levelno': 20, 'created': created,
                                                'host_name': 'h', 'process_name': 'p', 'thread_name': 't%d' % i})
                        x['logged'].append((m, created))
                        lgr.handle(rec)
                        x['done'].append(m)
                return w._guard(f)
            ts = [th.Thread(target=body(i), daemon=how != 'exit-threads') for i in range(self.n)]
            if actor and self.rev:
                ts_start = []
            for t in ts:
                t.start()
            if actor:
                if self.rev:
                    # (the others come first)
                    gate.left -= 1
                    w.sched.block(lambda: gate.left <= 0, None, 'harness-sync')
                else:
                    gate()
                if self.phase:
                    w.sched.sleep(self.phase, 'harness-wait')
            if how in ('flush', 'flush2'):
                x['before'] = list(x['done'])
                h.flush_records()
                x['after'] = [s for t, s in st.writes]
                if how == 'flush2':
                    h.flush_records()
            elif how == 'close':
                h.close()
            if how not in ('exit-race', 'exit-threads'):
                for t in ts:
                    t.join()
            if how in ('stay', 'flush', 'flush2', 'close'):
                w.sched.block(lambda: len(st.writes) >= self.n * self.per, 3.0, 'harness-wait')
                w.sched.sleep(1.0, 'harness-wait')
                x['stay'] = True
                w.sched.block(lambda: False, None, 'harness-idle')
            x['exit'] = list(x['done'])
        w.start(img, lambda: w._guard(run)(), driver=False)
        wait_for(w, lambda: img.state == 'dead' or 'stay' in x, 30, 'the process')
        w.free_off()
        got = [s for t, s in st.writes]
        what = '%s: %s' % (self.name, got)
        names = [g.partition('] ')[2].strip() for g in got]
        true(all(g == '[h:p:t%s] %s\n' % (m[1], m) for g, m in zip(got, names)), what + ': garbled')
        true(len(set(names)) == len(names), what + ': written twice')
        must = x['exit'] if how == 'exit-race' else [m for m, c in x['logged']]
        if how == 'exit-race':
            must = x['exit'] or []
        else:
            eq(len(must), self.n * self.per, what)
        for m in must:
            true(m in names, '%s: %s is missing' % (what, m))
        if 'before' in x:
            after = ''.join(x['after'])
            for m in x['before']:
                true(m in after, '%s: %s not written by flush_records()' % (what, m))
        if how in ('stay', 'exit', 'exit-threads') and self.past < HOLD:
            cr = dict(x['logged'])
            for i, a in enumerate(names):
                for b in names[i + 1:]:
                    true(cr[a] <= cr[b], '%s: wrong order' % what)
        true(not img.unhandled, '%s: %r' % (what, img.unhandled[:1]))
        w.note(tuple(names))


class Exit(Sys):
    """What is logged last thing is written when the process exits."""
    opts = {'fairq': False}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'exit'

    def main(self, w):
        how = ('plain', 'atexit-before', 'atexit-after', 'thread', 'error', 'basic_config')[pick(w, 6, 'how')]
        n = 1 + pick(w, 3, 'records')
        wait = (0.0, 0.1, 0.3, 1.0)[pick(w, 4, 'wait')]
        st = Stream(w)
        img = w.process('q')

        def run():
            lg = img.import_module('logging')
            th = img.import_module('threading')
            log = img.import_module('teleprox.log')
            ax = img.import_module('atexit')
            lgr = lg.getLogger()

            def records(tag='m'):
                for i in range(n):
                    lgr.warning('%s%d', tag, i)
                    if tag == 'm' and wait:
                        img.modules['time'].sleep(wait / n)
            if how == 'atexit-before':
                ax.register(records, 'late')
            if how == 'basic_config':
                log.basic_config()
                records()
                return
            h = log.RPCLogHandler(st)
            lgr.addHandler(h)
            if how == 'atexit-after':
                ax.register(records, 'late')
            records()
            if how == 'thread':
                def f():
                    img.modules['time'].sleep(0.05)
                    records('late')
                th.Thread(target=f).start()
            if how == 'error':
                raise ValueError('the end')
        w.start(img, run, driver=False)
        wait_for(w, lambda: img.state == 'dead', 10, 'exit')
        what = '%s, %d records, %g s' % (how, n, wait)
        want = ['m%d' % i for i in range(n)] + ['late%d' % i for i in range(n) if how in ('thread', 'atexit-before', 'atexit-after')]
        text = st.text if how != 'basic_config' else img.out[2].decode()
        eq([l.partition('] ')[2] for l in text.splitlines()], want, what)
        true(all(l.startswith('[simhost:process-%d:thread-' % img.pid) for l in text.splitlines()), '%s: %r' % (what, text))
        true([u[0] for u in img.unhandled] == ['default'] * (how == 'error'), '%s: %r' % (what, img.unhandled))
        w.cases += 1


class Console(Sys):
    """basic_config() shows the records of this process and of its children."""
    opts = {'fairq': False}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'console'

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        log.basic_config(log_level=('INFO', 'WARNING')[pick(w, 2, 'level')])
        lev = lg.getLogger().level
        log.set_process_name('main')
        log.set_thread_name('mt')
        order = pick(w, 2, 'order')
        c = w.tp.start_process('kid', log_level=10)
        cl = c.client._import('logging').getLogger('ch')
        want = []

        def mine():
            for lv in (10, 20, 30):
                lg.getLogger('own').log(lv, 'own %d', lv)
                if lv >= lev:
                    want.append('[simhost:main:mt] own %d' % lv)

        def its():
            for lv in (10, 20, 30):
                cl.log(lv, 'its %d' % lv)
                if lv >= lev:
                    want.append('[simhost:kid:main_thread] its %d' % lv)
        for k in range(3):
            (mine if (k + order) % 2 else its)()
            w.sched.sleep(0.01, 'harness-wait')
        w.sched.sleep(0.7, 'harness-wait')
        lines = [l for l in w.img.out[2].decode().splitlines() if '] own ' in l or '] its ' in l]
        eq(lines, want, 'console')
        c.kill()
        w.cases += 1


def scenarios(tier):
    q = tier == 'quick'
    b = 1 if q else 2
    D = (0.0, 0.1, 0.199)
    L = [
        (Arrivals(2, (0.0, 0.05, 0.15, 0.2, 0.31), (0.0, 0.05, 0.1, 0.15, 0.199, 0.5), 'wait'), 0),
        (Arrivals(3, (0.0, 0.05, 0.15), D + (0.4,), 'wait'), 0),
        (Arrivals(4, (0.0, 0.11), (0.0, 0.1, 0.19) if q else D + (0.05, 0.4), 'wait'), 0),
        (Arrivals(3, (0.0, 0.15), D, 'flush'), 0),
        (Arrivals(2, (0.0, 0.15), D, 'close'), 0),
        (Shapes(), 0), (Shapes(True), 0), (Origins(), 0), (Origins(True), 0), (Crowd(), 0), (Exit(), 0), (Console(), 0),
    ]
    for rev in (False, True):
        L += [(Threads(how, 2, 2, ph, past, rev), b) for how, ph, past in (
            ('flush', 0.2, 0.3), ('flush2', 0.0, 0.0), ('close', 0.2, 0.3), ('exit-race', 0.2, 0.3))]
    L += [(Threads(how, n, 2, ph, past), b) for how, n, ph, past in (
        ('stay', 2, 0.2, 0.3), ('stay', 2, 0.2, 0.19), ('stay', 1, 0.2, 0.2), ('exit', 2, 0.0, 0.0), ('exit', 2, 0.2, 0.25),
        ('exit-threads', 2, 0.2, 0.0), ('exit-race', 1, 0.0, 0.0))]
    return L
