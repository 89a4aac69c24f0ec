"""C16: no forwarded log record is lost, duplicated, reordered or altered."""
import logging as _logging

from ..harness import Gate, Sys, eq, other, pick, true, wait_for

ASSUMPTIONS = [
    'the log server handles the records waiting for it within a second of the sender being closed (its linger time)',
    'the process ends by an ordinary exit (not os._exit or a signal)',
    'records whose logging call overlaps another one, or the closing of the sender, have no fixed place',
]
TECHNIQUE = ('exhaustive enumeration of record shapes in every order (each record compared with the one logged), and '
             'systematic exploration of the schedules of logging threads, forwarding thread, server thread and '
             'close/exit at every line of log/remote.py up to a deviation bound')
LINES = ('teleprox.log.remote',)


class Bad:
    """Has no text."""

    def __init__(self, error=ValueError):
        self.error = error

    def __str__(self):
        raise self.error('no text')
    __repr__ = __str__


class Odd(Exception):
    def __str__(self):
        raise ValueError('no text either')
    __repr__ = __str__


class BadExc(Exception):
    def __str__(self):
        raise ValueError('no text')


class Obj:
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return 'Obj %s' % self.v


class Talk:
    def __init__(self, lg):
        self.lg = lg

    def __str__(self):
        self.lg.info('inner')
        return 'talk'


def _raise(f, exc, *a):
    try:
        raise exc
    except Exception:
        return f(*a)


def _chain(f):
    try:
        try:
            raise KeyError('first')
        except KeyError as e:
            raise OSError('second') from e
    except OSError:
        f()


def _circular():
    a = [1]
    a.append(a)
    return a


def _mut(lg, what):
    v = {'list': [1], 'dict': {'k': 1}, 'obj': Obj(1)}[what]
    lg.info('now %s', v)
    if what == 'list':
        v.append(2)
    elif what == 'dict':
        v['k'] = 2
    else:
        v.v = 2


def _mut_extra(lg):
    v = [1]
    lg.info('extra', extra={'x1': v})
    v.append(2)


def shapes(img):
    """name -> (f(lg), message or None if it may be degraded, level, extra attributes, text of the exception)"""
    np = img.import_module('numpy')
    D, I, W, E = 10, 20, 30, 40
    return {
        'plain': (lambda lg: lg.info('plain'), 'plain', I, {}, ()),
        'percent': (lambda lg: lg.debug('100%s %d %'), '100%s %d %', D, {}, ()),
        'args': (lambda lg: lg.warning('%s-%d-%r', 'a', 3, 'b'), "a-3-'b'", W, {}, ()),
        'dictarg': (lambda lg: lg.info('%(a)s/%(b)d', {'a': 'x', 'b': 2}), 'x/2', I, {}, ()),
        'tuplearg': (lambda lg: lg.info('%s', (1, 2)), '(1, 2)', I, {}, ()),
        'emptyarg': (lambda lg: lg.info('<%s>', ''), '<>', I, {}, ()),
        'zeroarg': (lambda lg: lg.info('%d items', 0), '0 items', I, {}, ()),
        'emptydict': (lambda lg: lg.info('all of %s', {}), 'all of {}', I, {}, ()),
        'objarg': (lambda lg: lg.info('%s', Obj(4)), 'Obj 4', I, {}, ()),
        'nparg': (lambda lg: lg.info('%s %d', np.arange(3), np.int64(5)), '[0 1 2] 5', I, {}, ()),
        'bytesarg': (lambda lg: lg.info('%s', b'\xff'), "b'\\xff'", I, {}, ()),
        'mutlist': (lambda lg: _mut(lg, 'list'), 'now [1]', I, {}, ()),
        'mutdict': (lambda lg: _mut(lg, 'dict'), "now {'k': 1}", I, {}, ()),
        'mutobj': (lambda lg: _mut(lg, 'obj'), 'now Obj 1', I, {}, ()),
        'mutextra': (_mut_extra, 'extra', I, {'x1': [1]}, ()),
        'exc': (lambda lg: _raise(lg.exception, ValueError('boom'), 'failed'), 'failed', E, {},
                ('Traceback (most recent call last)', 'ValueError: boom', '_raise')),
        'excarg': (lambda lg: _raise(lambda: lg.info('failed %s', 1, exc_info=True), KeyError('x1')), 'failed 1', I, {},
                   ("KeyError: 'x1'",)),
        'excinst': (lambda lg: lg.error('inst', exc_info=ValueError('made')), 'inst', E, {}, ('ValueError: made',)),
        'excnone': (lambda lg: lg.error('none', exc_info=True), 'none', E, {}, ()),
        'excchain': (lambda lg: _chain(lambda: lg.exception('chained')), 'chained', E, {},
                     ("KeyError: 'first'", 'OSError: second', 'direct cause')),
        'badexc': (lambda lg: _raise(lg.exception, BadExc(), 'bad exc'), 'bad exc', E, {}, ('BadExc',)),
        'stack': (lambda lg: lg.info('stack', stack_info=True), 'stack', I, {}, ('Stack (most recent call last)', 'c16.py')),
        'extra': (lambda lg: lg.info('ex', extra={'x1': 1, 'x2': [1, {'a': None}], 'x3': '\xe4\u20ac', 'x4': 2.5}), 'ex', I,
                  {'x1': 1, 'x2': [1, {'a': None}], 'x3': '\xe4\u20ac', 'x4': 2.5}, ()),
        'extranone': (lambda lg: lg.info('ex none', extra={'x1': None, 'x2': 0, 'x3': '', 'x4': False, 'x5': [], 'x6': {}, 'x7': 0.0}), 'ex none', I,
                      {'x1': None, 'x2': 0, 'x3': '', 'x4': False, 'x5': [], 'x6': {}, 'x7': 0.0}, ()),
        'extraobj': (lambda lg: lg.info('ex obj', extra={'x1': Obj(1), 'x2': 5, 'x3': {1, 2}, 'x4': b'b'}), 'ex obj', I, {'x2': 5}, ()),
        'extranp': (lambda lg: lg.info('ex np', extra={'x1': np.arange(2), 'x2': 'k', 'x3': np.float64(1.5)}), 'ex np', I, {'x2': 'k'}, ()),
        'extrabad': (lambda lg: lg.info('ex bad', extra={'x1': Bad(), 'x2': 6}), 'ex bad', I, {'x2': 6}, ()),
        'extrakeys': (lambda lg: lg.info('ex keys', extra={'x1': {(1, 2): 3}, 'x2': 7}), 'ex keys', I, {'x2': 7}, ()),
        'extracirc': (lambda lg: lg.info('ex circ', extra={'x1': _circular(), 'x2': 8}), 'ex circ', I, {'x2': 8}, ()),
        'extrabadkey': (lambda lg: lg.info('ex key', extra={('t', 1): 1}), None, I, {}, ()),
        'msgint': (lambda lg: lg.info(5), '5', I, {}, ()),
        'msgnone': (lambda lg: lg.info(None), 'None', I, {}, ()),
        'msgexc': (lambda lg: lg.warning(ValueError('as msg')), 'as msg', W, {}, ()),
        'msgdict': (lambda lg: lg.info({'a': 1}), "{'a': 1}", I, {}, ()),
        'msgobj': (lambda lg: lg.info(Obj('m')), 'Obj m', I, {}, ()),
        'msglist': (lambda lg: lg.info(['%s', 1]), "['%s', 1]", I, {}, ()),
        'msgempty': (lambda lg: lg.info(''), '', I, {}, ()),
        'msgobjargs': (lambda lg: lg.info(Obj('%s'), 3), 'Obj 3', I, {}, ()),
        'badmsg': (lambda lg: lg.info(Bad()), None, I, {}, ()),
        'badfmt': (lambda lg: lg.info('%d', 'x'), None, I, {}, ()),
        'fewargs': (lambda lg: lg.info('%s %s', 1), None, I, {}, ()),
        'manyargs': (lambda lg: lg.info('no place', 1, 2), None, I, {}, ()),
        'badarg': (lambda lg: lg.info('%s', Bad()), None, I, {}, ()),
        'badarg2': (lambda lg: lg.info('%s', Bad(RuntimeError)), None, I, {}, ()),
        'badarg3': (lambda lg: lg.info('%s', Bad(KeyError)), None, I, {}, ()),
        'badarg4': (lambda lg: lg.info('%s', Bad(Odd)), None, I, {}, ()),
        'badkey': (lambda lg: lg.info('%(b)s', {'a': 1}), None, I, {}, ()),
        'badboth': (lambda lg: lg.info(Bad(), Bad(), extra={'x1': Bad()}), None, I, {}, ()),
        'badinfo': (lambda lg: lg.info('info', exc_info=('a', 'b', None)), None, I, {}, ()),
        'badinfo2': (lambda lg: lg.info('info', exc_info=(ValueError, 5, 6)), None, I, {}, ()),
        'surrogate': (lambda lg: lg.info('a\udc80b\x00c'), 'a\udc80b\x00c', I, {}, ()),
        'lines': (lambda lg: lg.info('two\nlines\r\n\u2028'), 'two\nlines\r\n\u2028', I, {}, ()),
        'long': (lambda lg: lg.info('x' * 70000), 'x' * 70000, I, {}, ()),
        'level': (lambda lg: lg.log(25, 'own level'), 'own level', 25, {}, ()),
        'high': (lambda lg: lg.log(60, 'high'), 'high', 60, {}, ()),
        'low': (lambda lg: lg.log(1, 'low'), 'low', 1, {}, ()),
        'made': (lambda lg: lg.handle(lg.makeRecord(lg.name, 20, 'f', 1, 'made %s', ('up',), None)), 'made up', I, {}, ()),
        'talk': (lambda lg: lg.info('%s', Talk(lg)), ('inner', 'talk'), I, {}, ()),
    }


class Collect:
    """Keeps what arrives at a server-side logger."""

    def __init__(self, img, logger, delay=None):
        lg = img.modules['logging']
        me = self
        self.got = []

        class H(lg.Handler):
            def emit(self, rec):
                if delay:
                    img.modules['time'].sleep(delay)
                fm = lg.Formatter('%(name)s %(message)s')
                try:
                    text = fm.format(rec)
                except Exception:
                    # (as handlers do)
                    text = None
                me.got.append((rec, text))
        self.handler = H()
        logger.addHandler(self.handler)
        logger.setLevel(1)
        logger.propagate = False

    def msgs(self):
        return [r.getMessage() if t is not None else '<unformattable>' for r, t in self.got]

    def texts(self):
        """(with tracebacks)"""
        return ['<unformattable>' if t is None else t for r, t in self.got]


class Local:
    """A local handler beside the sender."""

    def __init__(self, img, logger):
        lg = img.modules['logging']
        me = self
        self.got = []

        class H(lg.Handler):
            def emit(self, rec):
                me.got.append((rec, rec.msg, rec.args, rec.exc_info, rec.exc_text))
        logger.addHandler(H())


class Shapes(Sys):
    opts = {'fairq': False, 'max_steps': 1000000, 'horizon': 5000.0, 'watchdog': 120.0}

    def __init__(self, depth, some=None, **kw):
        Sys.__init__(self, **kw)
        self.depth, self.some = depth, some
        self.name = 'shapes-%d' % depth

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        target = lg.getLogger('target')
        col = Collect(w.img, target)
        srv = log.LogServer(target)
        st = {'at': 0}
        names = sorted(shapes(w.img))
        first = names[pick(w, len(names), 'first')]
        named = pick(w, 2, 'names')
        some = self.some or names

        def q_main(r):
            rl = r.img.modules['logging'] if 'logging' in r.img.modules else r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            if named:
                qlog.set_host_name('the-host')
                qlog.set_process_name('the-process')
                if first < names[len(names) // 2]:
                    qlog.set_thread_name('the-thread')
                else:
                    # (from another thread)
                    th = r.img.import_module('threading')
                    t = th.Thread(target=qlog.set_thread_name, args=('the-thread', th.get_ident()))
                    t.start()
                    t.join()
            lgr = rl.getLogger('src.\xe4')
            lgr.setLevel(1)
            lgr.propagate = False
            loc0 = Local(r.img, lgr)
            snd = qlog.LogSender(srv.address, lgr)
            loc = Local(r.img, lgr)
            sh = shapes(r.img)
            tails = [()]
            for k in range(self.depth - 1):
                tails = [t + (s,) for t in tails for s in some]
            for tail in tails:
                hist = (first,) + tail + ('plain',)
                what = ' then '.join(hist[:-1])
                n0 = len(col.got)
                l0 = len(loc.got)
                for s in hist:
                    try:
                        sh[s][0](lgr)
                    except Exception as e:
                        true(False, '%s: logging raised %s: %s' % (what, type(e).__name__, e))
                # the last one is plain and must arrive, and all others before it
                ok = w.sched.block(lambda: len(col.got) > n0 and col.got[-1][0].msg == 'plain'
                                   and abs(col.got[-1][0].created - loc.got[-1][0].created) < 1e-9
                                   and len(col.got) >= n0 + sum(1 for s in hist if sh[s][1] is not None), 3.0, 'harness-wait')
                got = col.got[n0:]
                if not ok:
                    true(False, '%s: only %r arrived' % (what, [x[0].getMessage()[:30] for x in got]))
                w.sched.sleep(0.005, 'harness-wait')
                got = col.got[n0:]
                self.compare(hist, sh, got, loc.got[l0:], what, r, named)
                eq(sorted(id(x[0]) for x in loc0.got[l0:]), sorted(id(x[0]) for x in loc.got[l0:]), '%s: not the same records' % what)
                was = {id(x[0]): x[1:] for x in loc0.got[l0:]}
                for x in loc.got[l0:]:
                    true(all(a is b for a, b in zip(was[id(x[0])], x[1:])), '%s: changed the record' % what)
                w.cases += 1
        q = other(w, 'q', q_main)
        wait_for(w, lambda: q.done, None, 'q')
        w.note(first, len(col.got))

    def compare(self, hist, sh, got, local, what, r, named):
        got = list(got)
        local = list(local)
        for s in hist:
            f, msg, level, extra, texts = sh[s]
            mine = local[:2] if isinstance(msg, tuple) else local[:1]
            del local[:len(mine)]
            if isinstance(msg, tuple):
                ms = [g[0].getMessage() for g in got[:2]]
                true(sorted(ms) == sorted(msg), '%s: expected %r, got %r' % (what, msg, ms))
                del got[:2]
                continue
            orig = mine[0][0]
            if msg is None:
                # may be missing
                if got and (got[0][0].created, got[0][0].lineno) == (orig.created, orig.lineno):
                    rec = got.pop(0)[0]
                    true((rec.levelno, rec.name) == (level, 'src.\xe4'), '%s: %s: %r' % (what, s, rec))
                continue
            true(bool(got), '%s: %s is missing' % (what, s))
            rec, text = got.pop(0)
            true(text is not None, '%s: %s cannot be formatted' % (what, s))
            w = '%s: %s' % (what, s)
            eq(rec.getMessage(), msg, w)
            eq(rec.levelno, level, w)
            eq(rec.levelname, orig.levelname, w)
            eq(rec.name, 'src.\xe4', w)
            eq(rec.created, orig.created, w)
            eq(rec.process_name, 'the-process' if named else 'process-%d' % r.img.pid, w)
            eq(rec.host_name, 'the-host' if named else r.img.hostname, w)
            eq(rec.thread_name, 'the-thread' if named else 'MainThread', w)
            for k in ('pathname', 'lineno', 'funcName', 'module', 'msecs', 'process', 'thread', 'threadName'):
                eq(getattr(rec, k), getattr(orig, k), '%s: %s' % (w, k))
            for k, v in extra.items():
                true(hasattr(rec, k), '%s: no attribute %s' % (w, k))
                eq(getattr(rec, k), v, '%s: %s' % (w, k))
            for t in texts:
                true(t in text, '%s: %r not in %r' % (w, t, text[-300:]))
            if not texts:
                eq(text.partition('\n')[0].rstrip('\r'), ('src.\xe4 ' + msg).partition('\n')[0].rstrip('\r'), w)
        true(not got, '%s: also arrived: %r' % (what, [g[0].getMessage()[:50] for g in got]))


class Stamp:
    """Numbered records, with the order of their calls."""

    def __init__(self):
        self.t = 0
        self.calls = {}

    def log(self, lg, msg, f=None):
        self.t += 1
        a = self.t
        self.calls[msg] = (a, None)
        (f or lg.warning)('%s', msg)
        self.t += 1
        self.calls[msg] = (a, self.t)

    def mark(self):
        self.t += 1
        return self.t

    def check(self, msgs, must_before=None, none_after=None, what=''):
        """All calls that returned before must_before are there, once, in order."""
        true(len(set(msgs)) == len(msgs), '%s: duplicated: %s' % (what, msgs))
        for m, (a, b) in self.calls.items():
            if b is not None and (must_before is None or b < must_before):
                true(m in msgs, '%s: %s is missing from %s' % (what, m, msgs))
        for m in msgs:
            true(m in self.calls, '%s: unknown record %s' % (what, m))
        for i, x in enumerate(msgs):
            for y in msgs[i + 1:]:
                # y arrived after x, so it must not have been over before x began
                b = self.calls[y][1]
                true(b is None or b > self.calls[x][0], '%s: %s arrived before %s' % (what, x, y))


class Threads(Sys):
    """Threads of one or two processes log; then the sender is closed or the process exits."""
    lines = LINES

    def __init__(self, how, n=2, per=2, latency=0.0, hwm=None, slow=None, deferred=False, **kw):
        Sys.__init__(self, **kw)
        self.how, self.n, self.per, self.slow, self.deferred = how, n, per, slow, deferred
        self.opts = {'fairq': False, 'latency': latency, 'linger_drop': True}
        if hwm:
            self.opts['hwm'] = hwm
        self.name = 'threads-%s-%dx%d%s%s%s%s' % (how, n, per, '-lat%s' % latency if latency else '', '-hwm%s' % hwm if hwm else '',
                                                  '-slow' if slow else '', '-deferred' if deferred else '')

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        target = w.img.modules['logging'].getLogger('target')
        col = Collect(w.img, target, self.slow)
        how = self.how
        addr = 'tcp://127.0.0.1:5999'
        if how != 'late':
            srv = log.LogServer(target, addr)
        st = Stamp()
        state = {'end': None, 'over': 0}
        nproc = 2 if how == 'processes' else 1
        imgs = []

        def program(img, k):
            def run():
                rl = img.import_module('logging')
                th = img.import_module('threading')
                qlog = img.import_module('teleprox.log')
                lgr = rl.getLogger('src')
                lgr.setLevel(1)
                lgr.propagate = False
                if how == 'global':
                    qlog.set_logger_address(addr)
                    lgr.propagate = True
                    rl.getLogger().handlers[:] = [h for h in rl.getLogger().handlers if isinstance(h, qlog.LogSender)]
                else:
                    if self.deferred:
                        snd = qlog.LogSender(None, lgr)
                        lgr.warning('unconnected')
                        snd.connect(addr)
                    else:
                        snd = qlog.LogSender(addr, lgr)

                race = how in ('close-race', 'exit-race')
                gate = Gate(w, self.n + race)

                def body(i):
                    def f():
                        gate()
                        for j in range(self.per):
                            st.log(lgr, 'p%d t%d %d' % (k, i, j))
                        state['over'] += 1
                    return w._guard(f)
                ts = [th.Thread(target=body(i), daemon=how != 'exit-threads') for i in range(self.n)]
                for t in ts:
                    t.start()
                if race:
                    gate()
                elif how != 'exit-threads':
                    for t in ts:
                        t.join()
                if how in ('close', 'close-race', 'processes'):
                    state['end'] = st.mark()
                    snd.close()
                    st_after = st.mark()
                    st.log(lgr, 'late')
                    st.calls.pop('late')
                    if how == 'close-race':
                        for t in ts:
                            t.join()
                    elif how == 'close' and self.n == 1:
                        snd.close()
                if how == 'late':
                    w.sched.block(lambda: state.get('up'), None, 'harness-idle')
                    st.log(lgr, 'last')
                if how == 'stay' or how == 'late':
                    w.sched.block(lambda: False, None, 'harness-idle')
                if how in ('exit-race', 'exit', 'global'):
                    state['end'] = st.mark()
            w._guard(run)()
        for k in range(nproc):
            img = w.process('q%d' % k)
            imgs.append(img)
            w.start(img, (lambda img=img, k=k: program(img, k)), driver=False)
        total = self.n * self.per * nproc
        if how == 'late':
            w.sched.block(lambda: state['over'] == self.n or bool(w.violations), None, 'harness-wait')
            w.sched.sleep(0.3, 'harness-wait')
            state['srv'] = log.LogServer(target, addr)
            state['up'] = True
            total += 1
        if how in ('stay', 'late'):
            w.sched.block(lambda: len(col.got) >= total or bool(w.violations), 15 + 2 * (self.slow or 0) * total, 'harness-wait')
        else:
            w.sched.block(lambda: all(i.state == 'dead' for i in imgs) or bool(w.violations), 20, 'harness-wait')
            true(w.violations or all(i.state == 'dead' for i in imgs), 'the process does not exit')
        w.free_off()
        w.sched.sleep(0.5 + 2 * (self.slow or 0) * total, 'harness-wait')
        msgs = [m for m in col.msgs() if m != 'late']
        what = self.name
        for img in imgs:
            true(not img.unhandled, '%s: %r' % (what, img.unhandled[:1]))
        if self.deferred:
            true('unconnected' not in msgs or msgs[0] == 'unconnected', what)
            msgs = [m for m in msgs if m != 'unconnected']
        race = how in ('close-race', 'exit-race')
        if nproc == 2:
            for k in range(2):
                s2 = Stamp()
                s2.calls = {m: c for m, c in st.calls.items() if m.startswith('p%d' % k)}
                s2.check([m for m in msgs if m.startswith('p%d' % k)], None, what=what)
            eq(len(msgs), total, what)
        else:
            st.check(msgs, state['end'] if race else None, what=what)
            if not race:
                eq(len(msgs), total, '%s: %s' % (what, msgs))
        true(len(col.msgs()) - len(msgs) <= 1, what)
        w.note(tuple(msgs))


class Relay(Sys):
    """Records that pass through another process on their way."""

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'relay'

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        target = w.img.modules['logging'].getLogger('target')
        col = Collect(w.img, target)
        srv = log.LogServer(target)
        named = pick(w, 2, 'names')
        shape = pick(w, 3, 'shape')
        hops = 1 + pick(w, 2, 'hops')
        st = {'addr': srv.address, 'go': 0}

        def hop(k):
            def f(r):
                rl = r.img.import_module('logging')
                qlog = r.img.import_module('teleprox.log')
                qlog.set_process_name('hop%d' % k)
                qlog.set_host_name('hophost%d' % k)
                lgr = rl.getLogger('hop')
                lgr.setLevel(1)
                lgr.propagate = False
                snd = qlog.LogSender(st['addr'], lgr)
                r.srv = qlog.LogServer(lgr)
                # (whatever its own threads are called)
                for i in range(100, 110):
                    qlog.set_thread_name('hopthread', tid=src.img.pid * 1000 + i if 'img' in src.__dict__ else None)
                st['addr'] = r.srv.address
                st['go'] += 1
                w.sched.block(lambda: 'emit' in st, None, 'harness-idle')
                lgr.info('own')
                w.sched.block(lambda: False, None, 'harness-idle')
            return f
        src = other(w, 'src', lambda r: self.source(w, r, st, named, shape))
        for k in range(hops):
            other(w, 'h%d' % k, hop(k))
            wait_for(w, lambda: st['go'] == k + 1, 5, 'hop')
        st['start'] = True
        wait_for(w, lambda: len(col.got) >= 1, 5, 'the record')
        st['emit'] = True
        wait_for(w, lambda: len(col.got) >= 1 + hops, 5, 'the record')
        rec, text = col.got[0]
        what = 'relayed over %d hops' % hops
        eq(rec.getMessage(), ('plain', '1 % 2', 'failed')[shape], what)
        eq(rec.name, 'src', what)
        eq(rec.created, st['created'], what)
        eq(rec.process_name, 'the-process' if named else 'process-%d' % src.img.pid, what)
        eq(rec.host_name, 'the-host' if named else 'simhost', what)
        eq(rec.thread_name, 'the-thread' if named else 'MainThread', what)
        if shape == 2:
            true('ValueError: boom' in text, what)
        eq(sorted(r.process_name for r, t in col.got[1:]), sorted('hop%d' % k for k in range(hops)), what)
        w.cases += 1

    def source(self, w, r, st, named, shape):
        w.sched.block(lambda: 'start' in st, None, 'harness-idle')
        rl = r.img.import_module('logging')
        qlog = r.img.import_module('teleprox.log')
        if named:
            qlog.set_host_name('the-host')
            qlog.set_process_name('the-process')
            qlog.set_thread_name('the-thread')
        lgr = rl.getLogger('src')
        lgr.setLevel(1)
        loc = Local(r.img, lgr)
        snd = qlog.LogSender(st['addr'], lgr)
        if shape == 0:
            lgr.info('plain')
        elif shape == 1:
            lgr.info('%d %% %d', 1, 2)
        else:
            _raise(lgr.exception, ValueError('boom'), 'failed')
        st['created'] = loc.got[0][0].created
        w.sched.block(lambda: False, None, 'harness-idle')


class Failing(Sys):
    """A filter or handler of the server's logger fails for some records: the others are not affected."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}
    WHERE = ('none', 'filter', 'handler', 'parent')

    def __init__(self, n, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'failing-%d' % n

    def main(self, w):
        hist = [pick(w, len(self.WHERE), 'failure') for i in range(self.n)]
        kind = (ValueError, KeyError, RuntimeError, OSError)[pick(w, 4, 'kind')]
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        target = lg.getLogger('top.target')
        col = Collect(w.img, target)
        target.propagate = True
        lg.getLogger('top').propagate = False

        class Fails(lg.Handler):
            def __init__(self, word):
                lg.Handler.__init__(self)
                self.word = word

            def emit(self, rec):
                if self.word in rec.msg:
                    raise kind('failed')

        def filt(rec):
            if 'filter' in rec.msg:
                raise kind('failed')
            return True
        target.addFilter(filt)
        target.addHandler(Fails('handler'))
        lg.getLogger('top').addHandler(Fails('parent'))
        h = Fails('none')
        h.addFilter(filt)
        target.addHandler(h)
        srv = log.LogServer(target)

        def q_main(r):
            rl = r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            lgr = rl.getLogger('src')
            lgr.setLevel(1)
            snd = qlog.LogSender(srv.address, lgr)
            for i, k in enumerate(hist):
                lgr.info('%d %s' % (i, self.WHERE[k].replace('none', 'fine')))
            lgr.info('last')
            w.sched.sleep(0.1, 'harness-wait')
        q = other(w, 'q', q_main)
        wait_for(w, lambda: q.done, None, 'q')
        want = ['%d %s' % (i, self.WHERE[k].replace('none', 'fine')) for i, k in enumerate(hist) if self.WHERE[k] != 'filter'] + ['last']
        eq(col.msgs(), want, 'records handled by the logger (those that mention a filter, handler or parent make it fail)')
        w.cases += 1
        w.note(tuple(hist), kind.__name__)


class Absent(Sys):
    """The server is not there, or does not keep up: logging goes on regardless."""
    opts = {'fairq': False, 'linger_drop': True, 'hwm': 2}
    name = 'absent'

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        how = ('never', 'stopped', 'died', 'busy', 'moved')[pick(w, 5, 'how')]
        n = (1, 7, 40)[pick(w, 3, 'records')]
        glob = pick(w, 2, 'global')
        end = ('close', 'exit')[pick(w, 2, 'end')]
        what = 'server %s, %d records, %s%s' % (how, n, end, ', global sender' if glob else '')
        addr = 'tcp://127.0.0.1:5999'
        st = {}

        def server(r):
            qlog = r.img.import_module('teleprox.log')
            l = r.img.import_module('logging')
            t = l.getLogger('target')
            st['col'] = Collect(r.img, t, 1000 if how == 'busy' else None)
            st['srv'] = qlog.LogServer(t, addr)
            w.sched.block(lambda: False, None, 'harness-idle')
        if how != 'never':
            s = other(w, 's', server)
            wait_for(w, lambda: 'srv' in st, 5, 'log server')

        def run(r):
            rl = r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            lgr = rl.getLogger('src')
            lgr.setLevel(1)
            if glob:
                qlog.set_logger_address(addr)
                rl.getLogger().handlers[:] = [h for h in rl.getLogger().handlers if isinstance(h, qlog.LogSender)]
                snd = rl.getLogger().handlers[0]
            else:
                lgr.propagate = False
                snd = qlog.LogSender(addr, lgr)
            if how != 'never':
                lgr.warning('first')
                w.sched.sleep(0.2, 'harness-wait')
                if how == 'stopped':
                    st['srv'].stop()
                elif how == 'died':
                    s.img.die(-9)
                w.sched.sleep(1.5, 'harness-wait')
            for i in range(n):
                t0 = w.sched.now
                lgr.warning('record %d', i)
                true(w.sched.now - t0 < 0.01, '%s: logging took %.3f s' % (what, w.sched.now - t0))
            if how == 'moved':
                # (all records so far still go to the first one)
                qlog2 = qlog.LogServer(rl.getLogger('nobody'), filter_by_level=False)
                rl.getLogger('nobody').addHandler(rl.NullHandler())
                rl.getLogger('nobody').propagate = False
                snd.connect(qlog2.address)
            st['t'] = w.sched.now
            if end == 'close':
                snd.close()
                true(w.sched.now - st['t'] < 2.5, '%s: close() took %.1f s' % (what, w.sched.now - st['t']))
        img = w.process('q')

        class R:
            pass
        R.img = img
        w.start(img, lambda: w._guard(lambda: run(R))(), driver=False)
        w.sched.block(lambda: img.state == 'dead' or bool(w.violations), 60, 'harness-wait')
        true(w.violations or img.state == 'dead', '%s: the process does not exit' % what)
        true(w.violations or w.sched.now - st['t'] < 3, '%s: the exit took %.1f s' % (what, w.sched.now - st['t']))
        true(not img.unhandled, '%s: %r' % (what, img.unhandled[:1]))
        if how == 'moved':
            w.sched.sleep(0.5, 'harness-wait')
            eq(st['col'].msgs(), ['first'] + ['record %d' % i for i in range(n)], what)
        w.cases += 1
        w.note(how, n, glob, end)


NASTY = ('plain', 'args', 'exc', 'extraobj', 'extrakeys', 'badmsg', 'badboth', 'extrabadkey', 'mutlist', 'talk')


def scenarios(tier):
    q = tier == 'quick'
    b = 1 if q else 2
    L = [(Shapes(2 if q else 2), 0), (Shapes(3, NASTY), 0), (Relay(), 0), (Failing(2 if q else 4), 0), (Absent(), 0 if q else 1)]
    L += [
        (Threads('close', 1, 3), b + (not q)),
        (Threads('close', 2, 1), b + (not q)),
        (Threads('close', 2, 2, 0.02), b),
        (Threads('close-race', 2, 2), b),
        (Threads('close-race', 1, 3, 0.01), b),
        (Threads('exit', 1, 2), b + (not q)),
        (Threads('exit', 2, 2, 0.02), b),
        (Threads('exit-threads', 2, 2), b),
        (Threads('exit-race', 2, 2), b),
        (Threads('global', 2, 2, 0.01), b),
        (Threads('stay', 2, 2), b),
        (Threads('stay', 2, 4, 0.01, hwm=2, slow=0.3), 1),
        (Threads('late', 2, 2), b),
        (Threads('late', 1, 5, hwm=2), b),
        (Threads('processes', 1, 2), b),
        (Threads('close', 2, 1, deferred=True), b),
    ]
    return L
