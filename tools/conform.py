#!/opt/venv/bin/python
"""The stand-ins of mc/ against the real thing.

    conform.py [NAME...]

Each program below is run twice: with pyzmq, threading, time, subprocess, logging
and shared memory of this interpreter, and inside a process image of mc/. What it
returns has to be the same. (Timing: within TOL of the real run.)
"""
import os, sys

# the Qt programs: no display, and the event dispatcher that does not depend on glib
os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
os.environ.setdefault('QT_NO_GLIB', '1')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

PROGS = {}
TOL = 0.15


def prog(f):
    PROGS[f.__name__] = f
    return f


class Env:
    """What a program may use; `real` tells the two apart only where paths differ."""

    def __init__(self, real, imp):
        self.zmq, self.time, self.th = imp('zmq'), imp('time'), imp('threading')
        self.sub, self.os, self.socket = imp('subprocess'), imp('os'), imp('socket')
        self.imp, self.real = imp, real
        self.ctx = self.zmq.Context.instance()

    def sock(self, kind, **kw):
        s = self.ctx.socket(getattr(self.zmq, kind))
        s.linger = kw.pop('linger', 0)
        for k, v in kw.items():
            s.setsockopt(getattr(self.zmq, k), v)
        return s

    def pair(self, kind, **kw):
        s = self.sock(kind, **kw)
        s.bind('tcp://127.0.0.1:*')
        return s, s.getsockopt(self.zmq.LAST_ENDPOINT)

    def get(self, s, ms=400):
        return s.recv_multipart() if s.poll(ms) else None

    def exc(self, f, *a, **k):
        try:
            r = f(*a, **k)
            return None if f.__name__ in ('bind', 'connect') else r
        except Exception as e:
            return type(e).__name__, getattr(e, 'errno', None)

    def took(self, f):
        t = self.time.time()
        r = f()
        return r, self.time.time() - t


@prog
def dealer_router(e):
    r, a = e.pair('ROUTER')
    d = e.sock('DEALER', IDENTITY=b'me')
    d.connect(a)
    for i in range(5):
        d.send_multipart([b'%d' % i, b'x'])
    got = [e.get(r) for i in range(5)]
    for i in range(3):
        r.send_multipart([b'me', b'r%d' % i])
    r.send_multipart([b'nobody', b'lost'])
    back = [e.get(d) for i in range(4)]
    return got, back, e.get(r, 50)


@prog
def connect_before_bind(e):
    r, a = e.pair('ROUTER')
    r.close()
    d = e.sock('DEALER', IDENTITY=b'me')
    d.connect(a)
    d.send(b'early')
    e.time.sleep(0.2)
    r = e.sock('ROUTER')
    r.bind(a.decode())
    one = e.get(r, 3000)
    r.send_multipart([b'me', b'back'])
    return one, e.get(d)


@prog
def same_identity(e):
    r, a = e.pair('ROUTER')
    d1 = e.sock('DEALER', IDENTITY=b'me')
    d1.connect(a)
    d1.send(b'1')
    x = [e.get(r)]
    d2 = e.sock('DEALER', IDENTITY=b'me')
    d2.connect(a)
    d2.send(b'2')
    x.append(e.get(r, 200))
    r.send_multipart([b'me', b'to'])
    return x, e.get(d1), e.get(d2, 100)


@prog
def identity_again(e):
    r, a = e.pair('ROUTER')
    d1 = e.sock('DEALER', IDENTITY=b'me')
    d1.connect(a)
    d1.send(b'1')
    x = [e.get(r)]
    d1.close()
    e.time.sleep(1)
    r.send_multipart([b'me', b'lost'])
    d2 = e.sock('DEALER', IDENTITY=b'me')
    d2.connect(a)
    d2.send(b'2')
    x.append(e.get(r, 400))
    r.send_multipart([b'me', b'to'])
    return x, e.get(d2)


@prog
def identities(e):
    d = e.sock('DEALER')
    return (e.exc(d.setsockopt, e.zmq.IDENTITY, b''), e.exc(d.setsockopt, e.zmq.IDENTITY, b'x' * 255),
            e.exc(d.setsockopt, e.zmq.IDENTITY, b'x' * 256), e.exc(d.setsockopt, e.zmq.IDENTITY, b'\0a'))


@prog
def restart_of_server(e):
    r, a = e.pair('ROUTER')
    d = e.sock('DEALER', IDENTITY=b'me')
    d.connect(a)
    d.send(b'1')
    x = [e.get(r)]
    r.close()
    e.time.sleep(0.3)
    d.send(b'while down')
    r = e.sock('ROUTER')
    r.bind(a.decode())
    x.append(e.get(r, 3000))
    r.send_multipart([b'me', b'again'])
    return x, e.get(d)


@prog
def address_in_use(e):
    r, a = e.pair('ROUTER')
    r2 = e.sock('ROUTER')
    x = [e.exc(r2.bind, a.decode()), e.exc(r2.bind, 'tcp://1.2.3.4.5:6'), e.exc(r2.bind, 'nonsense'), e.exc(r2.connect, 'nonsense'),
         e.exc(r2.bind, 'foo://x')]
    r.close()
    e.time.sleep(0.2)
    return x, e.exc(r2.bind, a.decode())


@prog
def closed_socket(e):
    r, a = e.pair('ROUTER')
    d = e.sock('DEALER')
    d.connect(a)
    d.close()
    d.close()
    return (d.closed, e.exc(d.send, b'x'), e.exc(d.recv), e.exc(d.getsockopt, e.zmq.LINGER), e.exc(d.poll, 10), e.exc(d.connect, a))


@prog
def timeouts(e):
    r, a = e.pair('ROUTER')
    d = e.sock('DEALER')
    d.connect(a)
    d.setsockopt(e.zmq.RCVTIMEO, 200)
    x, t = e.took(lambda: e.exc(d.recv))
    y = e.exc(d.recv, e.zmq.NOBLOCK)
    z, t2 = e.took(lambda: d.poll(150))
    d.setsockopt(e.zmq.RCVTIMEO, 0)
    u = e.exc(d.recv)
    return x, y, z, u, ('time', t), ('time', t2)


@prog
def poller(e):
    r, a = e.pair('ROUTER')
    r2, a2 = e.pair('ROUTER')
    p = e.zmq.Poller()
    p.register(r, e.zmq.POLLIN)
    p.register(r2, e.zmq.POLLIN)
    x, t = e.took(lambda: p.poll(100))
    d = e.sock('DEALER', IDENTITY=b'd')
    d.connect(a2)
    d.send(b'x')
    y = [(s is r, s is r2, ev) for s, ev in p.poll(1000)]
    y2 = [(s is r, s is r2, ev) for s, ev in p.poll(0)]
    m = r2.recv_multipart()
    return x, y, y2, m, p.poll(0), ('time', t)


@prog
def poll_wakes(e):
    r, a = e.pair('ROUTER')
    d = e.sock('DEALER', IDENTITY=b'd')
    d.connect(a)

    def later():
        e.time.sleep(0.2)
        d.send(b'x')
    e.th.Thread(target=later).start()
    x, t = e.took(lambda: r.poll(5000))
    return x, r.recv_multipart(), ('time', t)


@prog
def push_pull(e):
    p, a = e.pair('PULL')
    u1, u2 = e.sock('PUSH'), e.sock('PUSH')
    u1.connect(a)
    u2.connect(a)
    for i in range(4):
        u1.send(b'a%d' % i)
    for i in range(4):
        u2.send(b'b%d' % i)
    got = [e.get(p)[0] for i in range(8)]
    return [g for g in got if g[:1] == b'a'], [g for g in got if g[:1] == b'b'], e.get(p, 50)


@prog
def push_two(e):
    p1, a1 = e.pair('PULL')
    p2, a2 = e.pair('PULL')
    u = e.sock('PUSH')
    u.connect(a1)
    u.connect(a2)
    e.time.sleep(0.2)
    for i in range(4):
        u.send(b'%d' % i)
    one = [e.get(p1), e.get(p1), e.get(p1, 50)]
    two = [e.get(p2), e.get(p2), e.get(p2, 50)]
    return sorted([len([x for x in one if x]), len([x for x in two if x])]), sorted(x[0] for x in one + two if x)


@prog
def push_disconnect(e):
    p1, a1 = e.pair('PULL')
    p2, a2 = e.pair('PULL')
    u = e.sock('PUSH')
    u.connect(a1)
    e.time.sleep(0.1)
    u.send(b'1')
    x = e.get(p1)
    u.disconnect(a1)
    u.connect(a2)
    e.time.sleep(0.1)
    u.send(b'2')
    return x, e.get(p2), e.get(p1, 100), e.exc(u.disconnect, a1)


@prog
def push_full(e):
    u = e.sock('PUSH', SNDHWM=3)
    p, a = e.pair('PULL')
    p.close()
    e.time.sleep(0.1)
    u.connect(a)
    return [e.exc(u.send, b'%d' % i, e.zmq.NOBLOCK) for i in range(5)]


@prog
def push_unconnected(e):
    u = e.sock('PUSH')
    u.setsockopt(e.zmq.SNDTIMEO, 100)
    x, t = e.took(lambda: e.exc(u.send, b'x'))
    return x, e.exc(u.send, b'x', e.zmq.NOBLOCK), ('time', t)


@prog
def linger_zero(e):
    p, a = e.pair('PULL')
    p.close()
    u = e.sock('PUSH', linger=0)
    u.connect(a)
    u.send(b'lost')
    u.close()
    e.time.sleep(0.2)
    p = e.sock('PULL')
    p.bind(a.decode())
    return e.get(p, 300)


@prog
def linger_some(e):
    p, a = e.pair('PULL')
    p.close()
    u = e.sock('PUSH', linger=2000)
    u.connect(a)
    u.send(b'kept')
    u.close()
    e.time.sleep(0.2)
    p = e.sock('PULL')
    p.bind(a.decode())
    return e.get(p, 3000)


@prog
def close_after_send(e):
    p, a = e.pair('PULL')
    u = e.sock('PUSH', linger=1000)
    u.connect(a)
    for i in range(20):
        u.send(b'%d' % i)
    u.close()
    return [e.get(p)[0] for i in range(20)]


@prog
def term_waits(e):
    c = e.zmq.Context()
    p, a = e.pair('PULL')
    p.close()
    e.time.sleep(0.1)
    u = c.socket(e.zmq.PUSH)
    u.linger = 300
    u.connect(a)
    u.send(b'x')
    u.close()
    x, t = e.took(c.term)
    return x, ('time', t)


@prog
def inproc(e):
    a = e.sock('PAIR')
    b = e.sock('PAIR')
    x = e.exc(b.connect, 'inproc://nothing-there')
    a.bind('inproc://conform')
    c = e.sock('PAIR')
    c.connect('inproc://conform')
    c.send_multipart([b'1', b'2'])
    y = e.get(a)
    a.send_multipart([b'3'])
    return x, y, e.get(c), e.exc(b.bind, 'inproc://conform')


@prog
def pair_tcp(e):
    a, ad = e.pair('PAIR')
    b = e.sock('PAIR')
    b.connect(ad)
    b.send_json({'x': 1})
    x = a.recv_json()
    a.send(b'OK')
    y = e.get(b)
    b.close()
    e.time.sleep(0.2)
    return x, y, e.exc(a.recv, e.zmq.NOBLOCK), e.exc(a.send, b'x', e.zmq.NOBLOCK)


@prog
def pair_second(e):
    a, ad = e.pair('PAIR')
    b = e.sock('PAIR')
    b.connect(ad)
    b.send(b'b')
    x = [e.get(a)]
    c = e.sock('PAIR')
    c.connect(ad)
    e.time.sleep(0.1)
    c.send(b'c')
    x.append(e.get(a, 200))
    a.send(b'back')
    return x, e.get(b), e.get(c, 100)


@prog
def router_unknown(e):
    r, a = e.pair('ROUTER')
    x = e.exc(r.send_multipart, [b'who', b'x'])
    r.setsockopt(e.zmq.ROUTER_MANDATORY, 1)
    return x, e.exc(r.send_multipart, [b'who', b'x'])


@prog
def options(e):
    r = e.sock('ROUTER')
    d = e.ctx.socket(e.zmq.DEALER)
    x = [d.linger, d.getsockopt(e.zmq.LINGER), d.getsockopt(e.zmq.SNDHWM), d.getsockopt(e.zmq.RCVTIMEO), d.getsockopt(e.zmq.TYPE)]
    d.linger = 70
    d.set_hwm(5)
    x += [d.linger, d.getsockopt(e.zmq.SNDHWM), d.getsockopt(e.zmq.RCVHWM), d.get_hwm()]
    x.append(e.exc(lambda: r.getsockopt(e.zmq.LAST_ENDPOINT)))
    d.close(0)
    return x


@prog
def fair(e):
    r, a = e.pair('ROUTER')
    ds = []
    for i in range(3):
        d = e.sock('DEALER', IDENTITY=b'%d' % i)
        d.connect(a)
        ds.append(d)
    for k in range(3):
        for d in ds:
            d.send(b'm%d' % k)
    e.time.sleep(0.2)
    got = [e.get(r) for i in range(9)]
    return [[m for i, m in got if i == b'%d' % k] for k in range(3)], sorted(i for i, m in got[:3])


# -- threads and time ------------------------------------------------------------
@prog
def events(e):
    ev = e.th.Event()
    x, t = e.took(lambda: ev.wait(0.2))
    e.th.Timer(0.1, ev.set).start()
    y, t2 = e.took(lambda: ev.wait(5))
    return x, y, ('time', t), ('time', t2)


@prog
def thread_local_and_join(e):
    loc = e.th.local()
    loc.x = 1
    seen = []

    def f():
        seen.append(hasattr(loc, 'x'))
        seen.append(e.th.current_thread().name)
        e.time.sleep(0.1)
    t = e.th.Thread(target=f, name='nm')
    t.start()
    alive = t.is_alive()
    t.join(0.02)
    a2 = t.is_alive()
    t.join()
    return seen, alive, a2, t.is_alive(), t.ident is not None


@prog
def hook_of_threads(e):
    seen = []
    old = e.th.excepthook
    e.th.excepthook = lambda a: seen.append((a.exc_type.__name__, a.thread.name))
    try:
        def bad():
            raise ValueError('x')

        def leave():
            raise SystemExit
        for f in (bad, leave):
            t = e.th.Thread(target=f, name=f.__name__)
            t.start()
            t.join()
    finally:
        e.th.excepthook = old
    return seen


@prog
def futures(e):
    cf = e.imp('concurrent.futures')
    f = cf.Future()
    x = e.exc(lambda: f.result(0.05))
    e.th.Timer(0.05, lambda: f.set_result(3)).start()
    y = f.result(5)
    return x[0], y, f.done(), f.cancelled(), e.exc(f.set_result, 4)[0]


@prog
def queues(e):
    q = e.imp('queue').Queue(1)
    q.put(1)
    x = e.exc(q.put, 2, timeout=0.05)
    y = q.get()
    return x[0], y, e.exc(q.get_nowait)[0]


# -- tcp connections --------------------------------------------------------------
@prog
def tcp(e):
    s = e.socket
    r, a = e.pair('ROUTER')
    port = int(a.decode().rsplit(':', 1)[1])
    c = s.socket(s.AF_INET, s.SOCK_STREAM)
    c.settimeout(1)
    x = e.exc(c.connect, ('127.0.0.1', port))
    c.close()
    r.close()
    e.time.sleep(0.2)
    c = s.socket(s.AF_INET, s.SOCK_STREAM)
    c.settimeout(1)
    y = e.exc(c.connect, ('127.0.0.1', port))
    c2 = s.socket(s.AF_INET, s.SOCK_STREAM)
    z = c2.connect_ex(('127.0.0.1', port))
    return x, y, z


# -- logging ------------------------------------------------------------------------
@prog
def log_basics(e):
    lg = e.imp('logging')
    seen = []

    class H(lg.Handler):
        def emit(self, r):
            seen.append((r.name, r.levelname, r.getMessage(), r.threadName))
    l = lg.getLogger('conform')
    l.propagate = False
    l.setLevel(20)
    l.addHandler(H())
    l.info('a %d', 1)
    l.debug('no')
    t = e.th.Thread(target=lambda: l.warning('b'), name='T')
    t.start()
    t.join()
    return seen


# -- processes ----------------------------------------------------------------------
PY = '/opt/venv/bin/python'


@prog
def process_codes(e):
    """(the child is the package's own bootstrap script, which needs nothing but stdin)"""
    tp = e.imp('teleprox')
    x = []
    p = tp.start_process('child')
    x.append((p.poll(), p.pid > 0, p.client['self']._type_str if False else None))
    x.append(p.client._import('os').getpid() == p.pid)
    x.append(e.exc(p.wait, 0.05)[0])
    x.append(p.stop())
    x.append((p.poll(), p.wait(1)))
    q = tp.start_process('child')
    q.kill()
    x.append(q.wait(5))
    q = tp.start_process('child')
    q.client._import('os')._exit(3, _sync='off')
    x.append(q.wait(5))
    q = tp.start_process('child', daemon=True)
    x.append(q.client._import('os').getpid() == q.pid)
    x.append(q.client._import('os').getppid() not in (e.os.getpid(), q.pid))
    q.stop()
    return x


@prog
def process_pipes(e):
    """Output of a captured child reaches its end when the child has ended."""
    tp = e.imp('teleprox')
    lg = e.imp('logging')
    log = e.imp('teleprox.log')
    seen = []

    class H(lg.Handler):
        def emit(self, r):
            seen.append((r.levelname, r.getMessage()))
    root = lg.getLogger()
    h = H()
    root.addHandler(h)
    root.setLevel(20)
    try:
        p = tp.start_process('child', log_stdio=True)
        o = p.client._import('os')
        for i in range(3):
            o.write(1, b'line %d\n' % i)
        o.write(2, b'err\n')
        o.write(1, b'end')
        p.stop()
        e.time.sleep(0.5)
    finally:
        root.removeHandler(h)
    return [m for l, m in seen if l == 'INFO' and ('line' in m or 'end' in m)], [m for l, m in seen if l == 'WARNING' and 'err' in m]


@prog
def calls(e):
    """A bit of everything, end to end."""
    tp = e.imp('teleprox')
    p = tp.start_process('child')
    c = p.client
    ops = c._import('operator')
    x = [ops.add(1, 2), ops.concat([1], ['a']), ops.truediv(1, 4)]
    f = ops.mul(6, 7, _sync='async')
    x.append(f.result(5))
    x.append(e.exc(ops.truediv, 1, 0)[0])
    x.append(ops.add(1, 1, _sync='off'))
    t = c._import('time')
    r, d = e.took(lambda: e.exc(t.sleep, 0.5, _timeout=0.2))
    x.append(r[0])
    e.time.sleep(0.5)
    x.append(ops.add(2, 2))
    c['n'] = [1, 2]
    x.append(c['n'])
    x.append(c.close_server())
    x.append(e.exc(ops.add, 1, 1)[0])
    x.append(p.wait(5))
    return x, ('time', d)


# -- shared memory --------------------------------------------------------------------
@prog
def shm(e):
    m = e.imp('multiprocessing.shared_memory')
    a = m.SharedMemory(create=True, size=10)
    x = [a.size >= 10, bytes(a.buf[:3])]
    a.buf[0] = 7
    b = m.SharedMemory(name=a.name)
    x.append(b.buf[0])
    b.buf[1] = 9
    x.append(a.buf[1])
    x.append(e.exc(m.SharedMemory, create=True, size=0)[0])
    b.close()
    a.close()
    a.unlink()
    x.append(e.exc(m.SharedMemory, name=a.name)[0])
    return x


def _qt(e):
    q = e.imp('teleprox.qt')
    app = q.QApplication.instance() or q.QApplication([])
    if e.real:
        KEEP.append(app)        # PyQt destroys an application that is not referenced
    return q, app


KEEP = []


@prog
def qt_signals(e):
    """Where and when slots run, by kind of slot and thread of the emission."""
    q, app = _qt(e)
    main = e.th.get_ident()
    got = []

    class A(q.QObject):
        sig = q.Signal(object)

        def slot(self, x):
            got.append(('slot', x, e.th.get_ident() == main))

    class Plain:
        def slot(self, x):
            got.append(('plain', x, e.th.get_ident() == main))
    a, b, p = A(), A(), Plain()
    a.sig.connect(a.slot)
    a.sig.connect(b.slot)
    a.sig.connect(p.slot)
    a.sig.connect(lambda x: got.append(('lambda', x, e.th.get_ident() == main)))
    out = []
    a.sig.emit(1)
    out.append(list(got))
    del got[:]

    def other():
        for i in range(3):
            a.sig.emit(('t', i))
        out.append(len(got))
    t = e.th.Thread(target=other)
    t.start()
    t.join()
    a.sig.emit(2)
    out.append(list(got))
    del got[:]
    app.processEvents()
    out.append(list(got))
    del got[:]
    app.processEvents()
    out.append(list(got))
    return out


@prog
def qt_connection_kinds(e):
    q, app = _qt(e)
    main = e.th.get_ident()
    got = []

    class A(q.QObject):
        sig = q.Signal(object, object)

        def slot(self, x, y):
            got.append((x, y, e.th.get_ident() == main))
    out = []
    for kind in ('AutoConnection', 'DirectConnection', 'QueuedConnection'):
        a = A()
        a.sig.connect(a.slot, getattr(q.Qt, kind))
        a.sig.emit(kind, 1)
        out.append(list(got))
        t = e.th.Thread(target=a.sig.emit, args=(kind, 2))
        t.start()
        t.join()
        out.append(list(got))
        app.processEvents()
        out.append(list(got))
        del got[:]
    # blocking: the emission returns when the slot has
    a = A()
    a.sig.connect(a.slot, q.Qt.BlockingQueuedConnection)
    done = []

    def body():
        a.sig.emit('blocking', 1)
        done.append(len(got))
    t = e.th.Thread(target=body)
    t.start()
    e.time.sleep(0.05)
    out.append((list(got), list(done)))
    for i in range(20):
        app.processEvents()
        e.time.sleep(0.01)
    t.join()
    out.append((list(got), list(done)))
    return out


@prog
def qt_disconnect(e):
    q, app = _qt(e)
    got = []

    class A(q.QObject):
        sig = q.Signal(object)
    a = A()
    f, g = (lambda x: got.append(('f', x))), (lambda x: got.append(('g', x)))
    out = []
    a.sig.connect(f)
    a.sig.connect(f)
    a.sig.connect(g)
    a.sig.emit(1)
    a.sig.disconnect(g)
    a.sig.emit(2)
    out.append(list(got))
    a.sig.disconnect()
    a.sig.emit(3)
    out.append(len(got))
    out.append(e.exc(a.sig.disconnect, g))
    return out


@prog
def qt_nested_events(e):
    """A slot that processes events, and one that emits."""
    q, app = _qt(e)
    got = []

    class A(q.QObject):
        sig = q.Signal(object)

        def slot(self, x):
            got.append(('in', x))
            if x == 0:
                app.processEvents()
            if x == 1:
                self.sig.emit('nested')
            got.append(('out', x))
    a = A()
    a.sig.connect(a.slot, q.Qt.QueuedConnection)
    for i in range(3):
        a.sig.emit(i)
    app.processEvents()
    n = len(got)
    app.processEvents()
    app.processEvents()
    return got


@prog
def qt_event_loop(e):
    """exec() runs what is posted by other threads until quit()."""
    q, app = _qt(e)
    main = e.th.get_ident()
    got = []

    class A(q.QObject):
        sig = q.Signal(object)

        def slot(self, x):
            got.append((x, e.th.get_ident() == main))
            if x == 'end':
                app.quit()
    a = A()
    a.sig.connect(a.slot)

    def body():
        e.time.sleep(0.1)
        for x in (1, 2, 'end', 3):
            a.sig.emit(x)
    out = []
    for i in range(2):
        del got[:]
        t = e.th.Thread(target=body)
        t0 = e.time.time()
        t.start()
        r = app.exec_()
        out.append((r, [x for x in got if x[0] != 3], e.time.time() - t0 < 1.0))
        t.join()
        app.processEvents()
        out.append(got[-1])
    return out


@prog
def qt_thread(e):
    q, app = _qt(e)
    main = e.th.get_ident()
    got = []

    class T(q.QThread):
        sig = q.Signal(object)

        def run(self):
            got.append(('run', e.th.get_ident() == main))
            self.sig.emit('from run')
            e.time.sleep(0.1)
            got.append('end of run')

    class R(q.QObject):
        def slot(self, x):
            got.append((x, e.th.get_ident() == main))
    t, r = T(), R()
    t.sig.connect(r.slot)
    out = [t.isRunning(), t.isFinished()]
    t.start()
    e.time.sleep(0.03)
    out += [t.isRunning(), t.isFinished(), t.wait(20), len(got)]
    app.processEvents()
    out.append(list(got))
    out += [t.wait(), t.isRunning(), t.isFinished()]
    # again
    del got[:]
    t.start()
    out += [t.wait(), len(got)]
    app.processEvents()
    out.append(list(got))
    return out


@prog
def qt_widgets_log(e):
    """The log viewer."""
    q, app = _qt(e)
    lg = e.imp('logging')
    LogViewer = e.imp('teleprox.log.logviewer').LogViewer
    main = e.th.get_ident()
    got = []

    class V(LogViewer):
        def new_record(self, rec):
            got.append((rec.getMessage(), rec.levelname, e.th.get_ident() == main))
    v = V('conform.viewer')
    log = lg.getLogger('conform.viewer.x')
    log.setLevel(10)
    log.info('a %d', 1)
    out = [list(got)]
    t = e.th.Thread(target=lambda: [log.warning('t%d', i) for i in range(3)])
    t.start()
    t.join()
    out.append(len(got))
    app.processEvents()
    v.handler.setLevel(40)
    log.info('no')
    log.error('yes')
    app.processEvents()
    out.append(list(got))
    return out


@prog
def qt_server(e):
    """A Qt server and a client in another thread."""
    q, app = _qt(e)
    tp = e.imp('teleprox')
    main = e.th.get_ident()
    srv = tp.QtRPCServer(quit_on_close=True)
    srv['id'] = e.th.get_ident
    srv.run_forever()
    out = []

    def body():
        c = tp.RPCClient(srv.address)
        out.append(c['id']() == main)
        out.append(c.ping())
        f = c['id'](_sync='async')
        out.append(f.result(timeout=5) == main)
        out.append(type(e.exc(c.__getitem__, 'nothing')))
        out.append(c.close_server())
        out.append(e.exc(c.ping))
    t = e.th.Thread(target=body)
    t.start()
    app.exec_()
    t.join()
    out.append(srv.running())
    return out


def run_real(name):
    import importlib
    return PROGS[name](Env(True, importlib.import_module))


def run_sim(name):
    from mc import explore
    from mc.harness import Sys
    out = []

    class C(Sys):
        opts = {'fairq': False, 'max_steps': 10 ** 7}

        def main(self, w):
            out.append(PROGS[name](Env(False, w.img.import_module)))
    C.name = name
    r = explore.run_one(C())
    if r.violation or r.error:
        return 'FAILED %s %s' % (r.violation, r.error)
    return out[0] if out else 'no result (%s)' % r.status


def agree(a, b):
    if isinstance(a, tuple) and len(a) == 2 and a[0] == 'time' and isinstance(b, tuple):
        return abs(a[1] - b[1]) < TOL
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(agree(x, y) for x, y in zip(a, b))
    return a == b


def main():
    bad = 0
    for n in sys.argv[1:] or PROGS:
        try:
            a = run_real(n)
        except BaseException as e:
            a = 'RAISED %r' % e
        b = run_sim(n)
        ok = agree(a, b)
        bad += not ok
        print('%-24s %s' % (n, 'agree' if ok else 'DIFFER\n   real %r\n   sim  %r' % (a, b)))
        sys.stdout.flush()
    print('%d programs, %d differ' % (len(sys.argv[1:] or PROGS), bad))
    os._exit(bool(bad))


main()
