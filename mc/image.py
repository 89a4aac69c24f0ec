"""Simulated process images.

An Image is one simulated process: private copies of the teleprox package (from
/repo's working tree) and of the stdlib modules whose behaviour depends on
threads, clocks or the process (threading, queue, logging, concurrent.futures,
pickle, ...), executed from their ordinary source.  Only the bottom layer they
stand on (_thread, time, zmq, socket, subprocess, os, atexit, sys, shared memory,
Qt) is replaced by the world of the execution.
"""
import builtins as _builtins
import importlib as _importlib
import importlib.util as _iu
import os as _os
import sys as _sys
import time as _time
import types
import weakref as _weakref
import _thread as _rthread

from . import sched as S

REPO = _os.environ.get('MC_REPO', '/repo')

# stdlib modules executed privately in every image
PRIVATE_STDLIB = {
    'threading', 'queue', 'logging', 'logging.handlers', 'concurrent', 'concurrent.futures',
    'concurrent.futures._base', 'concurrent.futures.thread', 'argparse', 'pickle', 'uuid',
    'sched', 'contextlib', 'shlex', 'getpass', 'warnings_'}
PRIVATE_STDLIB.discard('contextlib')
PRIVATE_STDLIB.discard('warnings_')
# modules that do not exist in an image (pure Python fallbacks are used instead)
ABSENT = {'_queue', '_pickle', '_uuid', 'colorama', '_compat_pickle_'}
ABSENT.discard('_compat_pickle_')

_code_cache = {}
_path_cache = {}
_target_dir = _os.path.join(_os.path.dirname(__file__), 'targets')


def _find(name):
    """(path, is_package) of a private module's source."""
    r = _path_cache.get(name)
    if r is not None:
        return r
    if name == 'teleprox' or name.startswith('teleprox.'):
        rel = name.replace('.', '/')
        p = '%s/%s/__init__.py' % (REPO, rel)
        if _os.path.exists(p):
            r = (p, True)
        else:
            p = '%s/%s.py' % (REPO, rel)
            if not _os.path.exists(p):
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            r = (p, False)
    elif name.startswith('mct_'):
        p = _os.path.join(_target_dir, name + '.py')
        if not _os.path.exists(p):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        r = (p, False)
    else:
        spec = _iu.find_spec(name)
        r = (spec.origin, spec.submodule_search_locations is not None)
    _path_cache[name] = r
    return r


def code_of(name):
    c = _code_cache.get(name)
    if c is None:
        path, pkg = _find(name)
        with open(path, 'rb') as f:
            src = f.read()
        c = compile(src, path, 'exec', dont_inherit=True)
        _code_cache[name] = c
    return c


def is_private(name):
    return (name == 'teleprox' or name.startswith('teleprox.') or name in PRIVATE_STDLIB
            or name.startswith('mct_'))


_teleprox_prefix = REPO + '/'
_verif_prefix = _os.path.dirname(_os.path.abspath(__file__)) + '/'


def caller_is_user(depth=2):
    """Is the code calling the shim teleprox or harness code (not stdlib)?"""
    try:
        fn = _sys._getframe(depth).f_code.co_filename
    except ValueError:
        return False
    return fn.startswith(_teleprox_prefix) or fn.startswith(_verif_prefix)


# ---------------------------------------------------------------------------
class SimLock:
    __slots__ = ('locked_', 'owner', '__weakref__')

    def __init__(self):
        self.locked_ = False
        self.owner = None

    def _acquire(self, blocking, timeout, user):
        s = S.STATE
        if s is None or s.current is None:
            if s is None and not self.locked_:
                self.locked_ = True
                return True
            raise S.Killed()
        if user:
            s.point('lock.acquire')
        if not self.locked_:
            self.locked_ = True
            self.owner = s.current
            return True
        if not blocking:
            return False
        if timeout is not None and timeout < 0:
            timeout = None
        ok = s.block(lambda: not self.locked_, timeout, 'lock')
        if not ok:
            return False
        self.locked_ = True
        self.owner = s.current
        return True

    def acquire(self, blocking=True, timeout=-1):
        return self._acquire(blocking, timeout, caller_is_user())

    acquire_lock = acquire

    def __enter__(self):
        self._acquire(True, -1, caller_is_user())
        return self

    def release(self):
        if not self.locked_:
            raise RuntimeError('release unlocked lock')
        self.locked_ = False
        self.owner = None
        s = S.STATE
        if s is not None and s.current is not None and caller_is_user():
            s.point('lock.release')

    release_lock = release

    def __exit__(self, *a):
        if not self.locked_:
            raise RuntimeError('release unlocked lock')
        self.locked_ = False
        self.owner = None
        s = S.STATE
        if s is not None and s.current is not None and not s.aborting and caller_is_user():
            s.point('lock.release')

    def locked(self):
        return self.locked_

    locked_lock = locked

    def _at_fork_reinit(self):
        self.locked_ = False

    def __repr__(self):
        return '<SimLock %s>' % self.locked_


class Shim(types.ModuleType):
    """A module whose missing attributes come from the real module (if allowed)."""

    def __init__(self, name, real=None, deny=()):
        types.ModuleType.__init__(self, name)
        self.__dict__['_mc_real'] = real
        self.__dict__['_mc_deny'] = frozenset(deny)

    def __getattr__(self, a):
        d = self.__dict__
        real = d.get('_mc_real')
        if real is None or a in d['_mc_deny'] or a.startswith('_mc_'):
            raise AttributeError('module %r has no attribute %r' % (d['__name__'], a))
        return getattr(real, a)


class TextStream:
    """A text stream of an image (its stdout or stderr)."""
    encoding = 'utf-8'
    errors = 'backslashreplace'
    closed = False
    newlines = None

    def __init__(self, image, n):
        self.image = image
        self.n = n
        self.text = []
        self.buffer = self._Buf(self)

    class _Buf:
        def __init__(self, ts):
            self.ts = ts

        def write(self, b):
            self.ts.image.fd_write(self.ts.n, bytes(b))
            return len(b)

        def flush(self):
            pass

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.image.fd_write(self.n, s.encode('utf-8', 'backslashreplace'))
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return self.n

    def writable(self):
        return True

    def readable(self):
        return False

    def close(self):
        pass


class OrderedSet(dict):
    """A set that is iterated in the same order every time."""

    def add(self, x):
        self[x] = True

    def discard(self, x):
        self.pop(x, None)

    remove = dict.__delitem__

    def difference_update(self, xs):
        for x in list(xs):
            self.pop(x, None)


class Image:
    def __init__(self, world, name, pid, argv=('python',), ppid=1):
        self.world = world
        self.name = name
        self.pid = pid
        self.ppid = ppid
        self.modules = {}
        self.atexit_funcs = []
        self.exit_code = None
        self.state = 'running'          # running | exiting | dead
        self.tasks = []
        self.idents = set()
        self.fds = {}                   # 1, 2 -> Pipe or None (discarded)
        self.out = {1: bytearray(), 2: bytearray()}
        self.clock_offset = 0.0
        self.perf_offset = 0.0
        self.ctx_instance = None
        self.sockets = []
        self.threads_spawned = 0
        self.hostname = 'simhost'
        self.path = []
        self.qt = {'importable': ('PyQt5',)}
        self.sockstats = {}
        self.unhandled = []
        self._next_lock = 0
        self.import_counts = {}
        self.lib_real_ok = True
        self._build(list(argv))
        world.images.append(self)

    # ---- fds ----------------------------------------------------------
    def fd_write(self, n, b):
        p = self.fds.get(n)
        if p is None:
            self.out[n] += b
        elif p == 'null':
            pass
        else:
            p.write(b)

    # ---- shims ---------------------------------------------------------
    def _build(self, argv):
        w = self.world
        img = self
        mods = self.modules
        bt = types.ModuleType('builtins')
        bt.__dict__.update(_builtins.__dict__)
        bt.__import__ = self._import
        sysm = Shim('sys', _sys)

        def _print(*a, sep=' ', end='\n', file=None, flush=False):
            f = file if file is not None else sysm.stdout
            if f is not None:
                f.write((' ' if sep is None else sep).join(str(x) for x in a) + ('\n' if end is None else end))
        bt.print = _print

        def _open(f, mode='r', *a, **k):
            if f == '/dev/null':
                return w.DevNull(img)
            if any(c in mode for c in 'wax+'):
                raise PermissionError(13, 'Permission denied (simulated process)', f)
            return _builtins.open(f, mode, *a, **k)
        bt.open = _open

        def _input(prompt=''):
            raise EOFError('EOF when reading a line')
        bt.input = _input
        bt.exit = bt.quit = lambda code=None: _raise_exit(code)
        self.builtins = bt
        self.bdict = bt.__dict__
        mods['builtins'] = bt

        sysm.modules = mods
        sysm.argv = argv
        sysm.executable = '/usr/bin/python-sim'
        sysm.platform = w.platform
        sysm.path = ['', REPO]
        sysm.stdout = TextStream(self, 1)
        sysm.stderr = TextStream(self, 2)
        sysm.__stdout__ = sysm.stdout
        sysm.__stderr__ = sysm.stderr
        sysm.stdin = None
        sysm.flags = _sys.flags

        def excepthook(t, v, tb):
            img.unhandled.append(('default', t, v, tb is not None))
            import traceback
            img.fd_write(2, ''.join(traceback.format_exception(t, v, tb)).encode('utf-8', 'replace'))
        sysm.excepthook = excepthook
        sysm.__excepthook__ = excepthook

        def unraisablehook(u):
            img.unhandled.append(('unraisable', u.exc_type, u.exc_value))
        sysm.unraisablehook = unraisablehook
        sysm.__unraisablehook__ = unraisablehook
        sysm.exit = _raise_exit
        sysm.settrace = sysm.setprofile = lambda *a: None
        sysm._current_frames = lambda: {}
        mods['sys'] = sysm
        self.sys = sysm

        # time
        tm = Shim('time', _time)

        def t_time():
            return w.clock() + img.clock_offset

        def t_perf():
            return w.clock() + img.perf_offset
        tm.time = t_time
        tm.perf_counter = t_perf
        tm.monotonic = t_perf
        tm.process_time = t_perf
        tm.thread_time = t_perf
        tm.time_ns = lambda: int(t_time() * 1e9)
        tm.perf_counter_ns = lambda: int(t_perf() * 1e9)
        tm.monotonic_ns = lambda: int(t_perf() * 1e9)

        def t_sleep(d):
            s = S.cur()
            if d < 0:
                raise ValueError('sleep length must be non-negative')
            s.sleep(d)
        tm.sleep = t_sleep
        mods['time'] = tm

        # _thread
        th = types.ModuleType('_thread')
        th.allocate_lock = SimLock
        th.allocate = SimLock
        th.LockType = SimLock
        th.lock = SimLock
        th.error = RuntimeError
        th.TIMEOUT_MAX = 1e9
        th._local = _rthread._local
        th.get_ident = self._get_ident
        th.get_native_id = self._get_ident
        th.daemon_threads_allowed = lambda: True
        th.stack_size = lambda *a: 0
        th.start_new_thread = self._start_new_thread
        th.start_new = self._start_new_thread

        def _set_sentinel():
            l = SimLock()
            S.cur().current.sentinel = l
            return l
        th._set_sentinel = _set_sentinel
        th.interrupt_main = lambda *a: None
        th.exit = lambda: _raise_exit(None)
        mods['_thread'] = th

        # atexit
        ax = types.ModuleType('atexit')

        def reg(f, *a, **k):
            img.atexit_funcs.append((f, a, k))
            return f

        def unreg(f):
            img.atexit_funcs[:] = [x for x in img.atexit_funcs if not (x[0] == f)]
        ax.register = reg
        ax.unregister = unreg
        ax._ncallbacks = lambda: len(img.atexit_funcs)
        mods['atexit'] = ax
        # signal, faulthandler
        import signal as _signal
        sg = Shim('signal', _signal, deny=('pthread_kill', 'alarm', 'setitimer', 'raise_signal'))
        sg.signal = lambda *a: None
        mods['signal'] = sg
        fh = types.ModuleType('faulthandler')
        fh.enable = fh.disable = lambda *a, **k: None
        fh.is_enabled = lambda: False
        mods['faulthandler'] = fh
        # importlib
        il = Shim('importlib', _importlib)

        def import_module(name, package=None):
            if name.startswith('.'):
                name = _iu.resolve_name(name, package)
            img._import(name)
            return mods[name]
        il.import_module = import_module
        il.reload = self._reload
        mods['importlib'] = il
        self.import_module = import_module
        # gc: collections happen where the code asks for them
        from . import fzmq, fproc, fqt, fshm
        fzmq.install(self)
        fproc.install(self)
        fshm.install(self)
        fqt.install(self)

    def _reload(self, mod):
        name = mod.__name__
        exec(code_of(name), mod.__dict__)
        return mod

    # ---- import --------------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        mods = self.modules
        if level:
            pkg = globals.get('__package__') or ''
            if globals.get('__package__') is None:
                pkg = globals['__name__']
                if '__path__' not in globals:
                    pkg = pkg.rpartition('.')[0]
            bits = pkg.rsplit('.', level - 1)
            base = bits[0]
            name = base + '.' + name if name else base
        if name not in mods:
            self._load_chain(name)
        if not fromlist:
            if level:
                return mods[name]
            return mods[name.partition('.')[0]]
        mod = mods[name]
        if hasattr(mod, '__path__'):
            for f in fromlist:
                if f == '*':
                    for x in getattr(mod, '__all__', ()):
                        if not hasattr(mod, x):
                            self._load_chain(name + '.' + x)
                elif not hasattr(mod, f):
                    try:
                        self._load_chain(name + '.' + f)
                    except ModuleNotFoundError as e:
                        if e.name != name + '.' + f:
                            raise
        return mod

    def _load_chain(self, name):
        mods = self.modules
        cur = ''
        parent = None
        for part in name.split('.'):
            cur = cur + '.' + part if cur else part
            m = mods.get(cur)
            if m is None:
                if cur in mods:        # None entry blocks the import
                    raise ModuleNotFoundError("import of %s halted; None in sys.modules" % cur, name=cur)
                m = self._load_one(cur, parent)
                if parent is not None:
                    try:
                        setattr(parent, part, m)
                    except (AttributeError, TypeError):
                        pass
            parent = m

    def _load_one(self, name, parent):
        mods = self.modules
        hook = self.finders.get(name.partition('.')[0])
        if hook is None and name.partition('.')[0] in ABSENT:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if hook is not None:
            m = hook(name)
            if m is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            mods[name] = m
            return m
        if is_private(name):
            return self._exec_private(name)
        if not self.lib_real_ok:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = _importlib.import_module(name)
        mods[name] = m
        return m

    def _exec_private(self, name, as_name=None):
        path, pkg = _find(name)
        m = types.ModuleType(as_name or name)
        d = m.__dict__
        d['__file__'] = path
        d['__builtins__'] = self.bdict
        d['__package__'] = name if pkg else name.rpartition('.')[0]
        if pkg:
            d['__path__'] = [_os.path.dirname(path)]
        self.modules[as_name or name] = m
        try:
            exec(code_of(name), d)
        except BaseException:
            self.modules.pop(as_name or name, None)
            raise
        if name == 'threading':
            self._patch_threading(m)
        elif name == 'queue':
            _patch_queue(m)
        elif name == 'logging':
            m._mc_image = self
        return m

    def _patch_threading(self, m):
        img = self
        m._shutdown_locks = OrderedSet()
        E = m.Event
        oset, owait = E.set, E.wait

        def eset(self):
            r = oset(self)
            s = S.STATE
            if s is not None and s.current is not None:
                s.point('event.set')
            return r

        def ewait(self, timeout=None):
            s = S.cur()
            s.point('event.wait')
            return owait(self, timeout)
        E.set, E.wait = eset, ewait
        T = m.Thread
        ojoin, oalive = T.join, T.is_alive

        def join(self, timeout=None):
            S.cur().point('thread.join')
            return ojoin(self, timeout)

        def is_alive(self):
            S.cur().point('thread.is_alive')
            return oalive(self)
        T.join, T.is_alive = join, is_alive

    # ---- threads --------------------------------------------------------
    def _new_ident(self):
        i = 100
        while i in self.idents:
            i += 1
        self.idents.add(i)
        return self.pid * 1000 + i

    def _get_ident(self):
        s = S.STATE
        if s is None or s.current is None:
            raise S.Killed()
        return s.current.ident

    def _start_new_thread(self, f, args=(), kwargs=None):
        s = S.cur()
        if self.state == 'dead':
            raise RuntimeError("can't start new thread")
        self.threads_spawned += 1
        t = self.spawn_task(lambda: f(*args, **(kwargs or {})), 'T%d' % self.threads_spawned)
        s.point('thread.start')
        return t.ident

    def spawn_task(self, fn, name):
        s = S.cur() if S.STATE is not None and S.STATE.current is not None else self.world.sched
        ident = self._new_ident()
        t = s.spawn(fn, '%s/%s' % (self.name, name), self, ident)
        t.sentinel = None

        def done():
            if t.sentinel is not None:
                t.sentinel.locked_ = False
            self.idents.discard(ident - self.pid * 1000)
        t.on_done.append(done)
        self.tasks.append(t)
        return t

    # ---- process life -----------------------------------------------------
    def boot(self):
        """Make this image ready: imports threading in the main task's context."""
        self.import_module('threading')

    def run_main(self, fn):
        """Body of the main task: run fn, then interpreter shutdown."""
        code = 0
        try:
            try:
                self.boot()
                fn()
            except SystemExit as e:
                code = _exit_code(self, e)
            except (S.Killed, S.HarnessError, S.Violation):
                raise
            except BaseException as e:
                code = 1
                self._call_excepthook(e)
            self.shutdown()
        finally:
            if self.state != 'dead' and not self.world.sched.aborting:
                self.die(code)

    def _call_excepthook(self, e):
        try:
            self.sys.excepthook(type(e), e, e.__traceback__)
        except S.Killed:
            raise
        except Exception:
            pass

    def shutdown(self):
        """Interpreter exit: join non-daemon threads, then exit handlers."""
        self.state = 'exiting'
        th = self.modules.get('threading')
        if th is not None:
            try:
                th._shutdown()
            except S.Killed:
                raise
            except Exception as e:
                self.unhandled.append(('shutdown', type(e), e))
        while self.atexit_funcs:
            f, a, k = self.atexit_funcs.pop()
            try:
                f(*a, **k)
            except (S.Killed, S.HarnessError, S.Violation):
                raise
            except BaseException as e:
                self.unhandled.append(('atexit', type(e), e))

    def die(self, code):
        """The process is gone: threads stop, sockets and pipes close."""
        if self.state == 'dead':
            return
        self.state = 'dead'
        self.exit_code = code
        s = self.world.sched
        for t in self.tasks:
            if not t.done:
                t.dead = True
        for sk in list(self.sockets):
            sk._die()
        for n, p in list(self.fds.items()):
            if hasattr(p, 'writer_closed'):
                p.writer_closed()
        self.world.on_death(self)


def _raise_exit(code=None):
    raise SystemExit(code)


def _exit_code(img, e):
    c = e.code
    if c is None:
        return 0
    if isinstance(c, int):
        return c & 255
    img.fd_write(2, (str(c) + '\n').encode())
    return 1


def _patch_queue(m):
    seen = set()
    for clsname in ('Queue', 'SimpleQueue', '_PySimpleQueue'):
        c = getattr(m, clsname, None)
        if c is None or 'put' not in c.__dict__ or c in seen:
            continue
        seen.add(c)
        oput, oget = c.put, c.get

        def put(self, item, block=True, timeout=None, _o=oput):
            s = S.STATE
            if s is not None and s.current is not None and not s.aborting:
                s.point('queue.put')
            return _o(self, item, block, timeout)

        def get(self, block=True, timeout=None, _o=oget):
            s = S.STATE
            if s is not None and s.current is not None and not s.aborting:
                s.point('queue.get')
            return _o(self, block, timeout)
        c.put, c.get = put, get
