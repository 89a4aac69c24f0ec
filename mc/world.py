"""The world of one execution: machine, network, processes and the scheduler."""
import gc
import socket as _socket
import sys

from . import sched as S
from .fproc import Proc, Pipe
from .fzmq import Net
from .image import Image, caller_is_user, REPO


Violation = S.Violation


def _ps(argv, rows):
    """The output of ps for the columns asked for (-o), every process of the world being listed (-e)."""
    cols, header = [], True
    it = iter(argv[1:])
    for a in it:
        if a in ('--no-headers', '--no-heading', '--noheader', '--no-header', 'h'):
            header = False
            continue
        if a in ('-o', '--format', 'o', '-eo', '-Ao', '-axo', 'axo', '-Aww', '-ewwo', '-eww'):
            if not a.endswith('o') and a != '--format':
                continue
            spec = next(it, '')
        elif a.startswith('--format='):
            spec = a[9:]
        elif a.startswith('-o') and len(a) > 2:
            spec = a[2:]
        else:
            continue
        for f in spec.replace(' ', ',').split(','):
            name, eq, title = f.partition('=')
            if name:
                cols.append((name, title if eq else None))
    titles = {'pid': 'PID', 'ppid': 'PPID', 'command': 'COMMAND', 'cmd': 'CMD', 'args': 'COMMAND', 'comm': 'COMMAND',
              'ucmd': 'CMD'}
    if not cols:
        cols = [('pid', None), ('cmd', None)]

    def cell(name, text, last):
        return '%7s' % text if name in ('pid', 'ppid') else text if last else '%-27s' % text
    out = []
    if header and any(t != '' for _, t in cols):
        out.append(' '.join(cell(n, titles.get(n, n.upper()) if t is None else t, i == len(cols) - 1)
                            for i, (n, t) in enumerate(cols)))
    for pid, ppid, cmd in rows:
        val = {'pid': pid, 'ppid': ppid, 'comm': cmd.split(' ')[0].split('/')[-1][:15]}
        val['ucmd'] = val['comm']
        out.append(' '.join(cell(n, val.get(n, cmd), i == len(cols) - 1) for i, (n, t) in enumerate(cols)))
    return '\n'.join(out) + '\n'


class World:
    platform = 'linux'

    def __init__(self, opts=None, prefix=b'', crc=None):
        o = opts or {}
        self.opts = o
        self.sched = S.Sched(prefix, crc, max_steps=o.get('max_steps', 60000),
                             horizon=o.get('horizon', 900.0), time_dev=o.get('time_dev', False),
                             time_dev_max=o.get('time_dev_max', 20.0))
        self.net = Net(self)
        self.fairq_dev = o.get('fairq', True)
        self.net.delay_menu = tuple(o.get('delays', ()))
        self.net.ghost_dev = o.get('ghost', False)
        self.net.linger_drop = o.get('linger_drop', True)
        self.net.base_latency = o.get('latency', 0.0)
        if o.get('hwm'):
            n = o['hwm']
            self.net.hwm_map = lambda v: n if v else v
        self.images = []
        self.procs = {}
        self.next_pid = 100
        self.rand = 0
        self.popen_log = []
        self.kills = []
        self.slow_pipe = {}         # name of a pipe: how long its reader takes
        self.open_tcp = 0
        self.tcp_rules = {}
        self.shm = {}
        self.shm_log = []
        self.shm_seq = 0
        self.shm_fail = False
        self.pipe_cap = o.get('pipe_cap', 65536)
        self.violations = []
        self.notes = []                # observations that make up the outcome
        self.drivers = 0
        self.cases = 0                 # comparisons made in sequential enumerations
        self.clock_calls = 0
        self.clock_at = -1.0
        self.programs = {}             # argv[0] -> function(image) for non-python commands
        self.spawn_hook = None
        self.extra_ps = []
        self.child_setup = None
        self.data = {}

    # -- clock --------------------------------------------------------
    def clock(self):
        s = S.STATE
        if s is not self.sched or s.current is None:
            return self.sched.now
        if s.now == self.clock_at:
            self.clock_calls += 1
            if self.clock_calls > 400 and not s.aborting:
                # a loop that only looks at the clock: let time pass
                self.clock_calls = 0
                s.sleep(0.001, 'clock-spin')
        else:
            self.clock_at = s.now
            self.clock_calls = 0
        return s.now

    # -- checks ---------------------------------------------------------
    def fail(self, msg):
        self.violations.append(msg)

    def check(self, cond, msg):
        if not cond:
            self.violations.append(msg)
        return cond

    def note(self, *x):
        self.notes.append(x if len(x) > 1 else x[0])

    # -- processes ------------------------------------------------------
    def new_pid(self):
        self.next_pid += 1
        return self.next_pid

    def process(self, name, argv=('python',), ppid=1):
        """Create a process image (no code runs in it yet)."""
        pid = self.new_pid()
        img = Image(self, name, pid, argv, ppid)
        p = Proc(self, pid, ppid, list(argv), img)
        img.proc = p
        self.procs[pid] = p
        return img

    def start(self, img, fn, driver=True):
        """Run fn as the main program of a process image."""
        if driver:
            self.drivers += 1
            fn = self._guard(fn)
        t = img.spawn_task(lambda: img.run_main(fn), 'main')
        img.main_task = t
        if driver:
            t.on_done.append(self._driver_done)
            t.driver = True
        return t

    def thread(self, img, fn, name, driver=True):
        """A bare harness thread inside an image."""
        if driver:
            self.drivers += 1

        t = img.spawn_task(self._guard(fn) if driver else fn, name)
        if driver:
            t.on_done.append(self._driver_done)
        return t

    def _guard(self, fn):
        def run():
            try:
                fn()
            except S.Violation as e:
                # (threading would take it for an exception of the program)
                self.fail(str(e))
                self.sched.finish('ok')
                raise S.Killed()
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in reversed(tb))
                self.fail('unexpected %s: %s [%s]' % (type(e).__name__, _short(str(e)), where[:300]))
        return run

    def _driver_done(self):
        self.drivers -= 1
        if self.drivers <= 0:
            self.sched.finish('ok')

    def spawn_process(self, argv, parent, pipes, env):
        if self.spawn_hook is not None:
            r = self.spawn_hook(argv, parent, pipes, env)
            if r is not None:
                return r
        prog = self.programs.get(argv[0])
        ppid = parent.proc.pid
        rest = list(argv)
        if rest and rest[0] == 'conda':
            # conda run --no-capture-output -n ENV cmd...
            i = rest.index('-n') + 2 if '-n' in rest else 1
            self.data.setdefault('conda', []).append(rest[:i])
            rest = rest[i:]
        if prog is None and not (rest and rest[0] in ('/usr/bin/python-sim', 'python', 'python3')):
            for p in pipes.values():
                if hasattr(p, 'writer_closed'):
                    p.writer_closed()
            raise FileNotFoundError(2, 'No such file or directory', argv[0])
        img = self.process('child%d' % (len(self.procs)), rest, ppid)
        img.fds = dict(pipes)
        img.parent = parent
        img.hostname = parent.hostname
        img.env = env
        if self.child_setup is not None:
            self.child_setup(img)
        proc = img.proc
        if prog is not None:
            self.start(img, lambda: prog(img), driver=False)
        else:
            self.start(img, lambda: self._python_main(img, rest), driver=False)
        self.sched.point('spawned')
        return proc

    def _python_main(self, img, argv):
        args = argv[1:]
        i = 0
        while i < len(args) and args[i].startswith('-') and args[i] not in ('-m', '-c'):
            i += 1
        if i < len(args) and args[i] == '-m':
            mod = args[i + 1]
            img.sys.argv = [mod] + args[i + 2:]
            pk = mod.rpartition('.')[0]
            if pk:
                img.import_module(pk)
            img._exec_private(mod, as_name='__main__')
        elif i < len(args) and args[i] == '-c':
            d = {'__name__': '__main__', '__builtins__': img.bdict}
            exec(compile(args[i + 1], '<string>', 'exec'), d)
        else:
            raise S.HarnessError('unsupported python command %r' % (argv,))

    def fork(self, img):
        """Only the child's continuation is followed; the parent's part of the
        double fork is `sys.exit(0)`."""
        old = img.proc
        pid = self.new_pid()
        p = Proc(self, pid, old.pid, list(old.cmd), img)
        self.procs[pid] = p
        img.proc = p
        img.pid = img.pid
        img.forked = getattr(img, 'forked', 0) + 1
        old.image = None
        old.exit(0)
        p.ppid = 1
        self.sched.point('fork')
        return 0

    def on_death(self, img):
        p = img.proc
        if p is not None:
            p.exit(img.exit_code)
        for q in self.procs.values():
            if p is not None and q.ppid == p.pid:
                q.ppid = 1
                if q.dead:
                    q.reaped = True

    def kill(self, pid, sig, by=None):
        sig = int(sig)
        if pid <= 0:
            self.kills.append((pid, sig, 'group'))
            return
        p = self.procs.get(pid)
        if p is None or p.reaped:
            self.kills.append((pid, sig, 'gone'))
            raise ProcessLookupError(3, 'No such process')
        if getattr(p, 'protected', False):
            self.kills.append((pid, sig, 'denied'))
            raise PermissionError(1, 'Operation not permitted')
        self.kills.append((pid, sig, 'dead' if p.dead else 'alive'))
        if sig == 0 or p.dead:
            return
        if sig in (9, 15, 2, 1, 3, 6):
            p.killed_by = sig
            if p.image is not None:
                p.image.die(-sig)
                if by is not None and p.image is by:
                    raise S.Killed()
            else:
                p.exit(-sig)

    def command_output(self, argv, img):
        if argv and argv[0] == 'ps':
            rows = []
            for p in self.procs.values():
                if not p.reaped:
                    rows.append((p.pid, p.ppid, ' '.join(p.cmd) if not p.dead else '[python] <defunct>'))
            rows += [(a, 1, b) for a, b in self.extra_ps]
            rows.append((self.new_pid(), img.proc.pid if img.proc is not None else 1, ' '.join(argv)))       # itself
            return _ps(argv, rows).encode('utf-8', 'surrogateescape')
        f = self.data.get('commands', {}).get(argv[0])
        if f is not None:
            return f(argv)
        raise FileNotFoundError(2, 'No such file or directory', argv[0])

    # -- tcp probe ---------------------------------------------------------
    def tcp_connect(self, sock, addr):
        host, port = addr
        if host == 'localhost':
            host = '127.0.0.1'
        s = self.sched
        rule = self.tcp_rules.get((host, port), self.tcp_rules.get('*'))
        if callable(rule):
            rule = rule(sock, addr)
        if rule is None:
            ep = 'tcp://%s:%d' % (host, port)
            ok = ep in self.net.bound or ('tcp://0.0.0.0:%d' % port) in self.net.bound
            rule = 'open' if ok else 'refused'
        if isinstance(rule, tuple):
            rule, delay = rule
        else:
            delay = None
        if rule == 'gaierror':
            raise _socket.gaierror(-2, 'Name or service not known')
        if rule == 'timeout':
            if sock.timeout is None:
                s.sleep(130.0)
                raise TimeoutError(110, 'Connection timed out')
            s.sleep(sock.timeout)
            raise _socket.timeout('timed out')
        if delay is not None:
            if sock.timeout is not None and delay > sock.timeout:
                s.sleep(sock.timeout)
                raise _socket.timeout('timed out')
            s.sleep(delay)
        if rule == 'refused':
            raise ConnectionRefusedError(111, 'Connection refused')
        if rule == 'unreachable':
            raise OSError(113, 'No route to host')
        if rule == 'reset':
            raise ConnectionResetError(104, 'Connection reset by peer')
        return

    class DevNull:
        def __init__(self, img):
            pass

        def fileno(self):
            return 99

        def write(self, s):
            return len(s)

        def read(self, *a):
            return ''

        def flush(self):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    # -- running ----------------------------------------------------------
    def free_on(self):
        self.sched.free = True
        self.sched.current.sched = self.sched

    def free_off(self):
        self.sched.free = False

    def run(self, watchdog=30.0):
        """Run until the drivers are done."""
        s = self.sched
        S.STATE = s
        t0 = s.tasks[0]
        s.run(t0, watchdog)
        return s.status


def _short(s):
    s = s.strip()
    return s if len(s) < 400 else s[:60] + ' ... ' + s[-340:]
