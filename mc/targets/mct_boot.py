"""What a started process knows about itself."""
import logging
import os
import sys
import threading
import time


def info():
    import teleprox
    from teleprox import log
    qt = sys.modules.get('teleprox.qt')
    srv = teleprox.RPCServer.get_server()
    return {'name': log.get_process_name(), 'prefix': teleprox.process.PROCESS_NAME_PREFIX,
            'level': logging.getLogger().level, 'log': log.get_logger_address(), 'pid': os.getpid(),
            'ppid': os.getppid(),
            'app': qt is not None and qt.QApplication.instance() is not None,
            'main': threading.current_thread() is threading.main_thread(),
            'server': None if srv is None else type(srv).__name__}


def log(msg, level=50):
    logging.getLogger('kid').log(level, msg)


def child(**kw):
    """Starts a process itself; its view of itself."""
    import teleprox
    p = teleprox.start_process(**kw)
    try:
        return p.name, p.client._import('mct_boot').info(_return_type='value')
    finally:
        p.stop()


KIDS = []


def start(**kw):
    """Starts a process that is kept; its pid and address."""
    import teleprox
    p = teleprox.start_process(**kw)
    KIDS.append(p)
    return p.pid, p.client.address


def do(i, op, *a):
    """An operation on a process started here; its result or the type of the exception."""
    try:
        return getattr(KIDS[i], op)(*a)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def call(f, *a):
    return f(*a)


def slow(d):
    time.sleep(d)
    return d


def thread(d, daemon=True):
    """Runs for a while."""
    threading.Thread(target=time.sleep, args=(d,), daemon=daemon).start()


RAN = []
HELD = []


def at_exit(d=0.0, fail=False, out=0):
    import atexit

    def f():
        if d:
            time.sleep(d)
        if out:
            sys.stdout.buffer.write(b'x' * out)
            sys.stderr.buffer.write(b'y' * out)
        RAN.append(1)
        if fail:
            raise ValueError('at exit')
    atexit.register(f)


def write(n, fd=1):
    (sys.stdout if fd == 1 else sys.stderr).buffer.write(b'x' * n)


def keep_writing(n, fd=1):
    def f():
        while True:
            write(n, fd)
    threading.Thread(target=f, daemon=True).start()


def hold(x):
    HELD.append(x)


def connect(addr):
    """Has a client of another server, and an object there."""
    import teleprox
    c = teleprox.RPCClient(addr)
    HELD.append((c, c._import('mct_tgt').Obj(1)))
