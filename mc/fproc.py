"""Simulated processes: subprocess, os and socket as seen by an image."""
import os as _os
import shlex
import socket as _socket
import subprocess as _sp
import types

from . import sched as S


class Pipe:
    """An OS pipe; `cap` bytes of buffer."""

    def __init__(self, world, name, cap=65536):
        self.world = world
        self.name = name
        self.cap = cap
        self.buf = bytearray()
        self.writers = 1
        self.reader_open = True
        self.written = 0
        self.sent = bytearray()
        self.max_block = 0

    def write(self, b):
        s = self.world.sched
        i = 0
        b = bytes(b)
        while i < len(b):
            if s.current is None or S.STATE is not s:
                return
            if not self.reader_open:
                raise BrokenPipeError(32, 'Broken pipe')
            room = self.cap - len(self.buf)
            if room <= 0:
                s.block(lambda: len(self.buf) < self.cap or not self.reader_open, None, 'pipe-full')
                continue
            chunk = b[i:i + room]
            self.buf += chunk
            self.written += len(chunk)
            self.sent += chunk
            i += len(chunk)

    def writer_closed(self):
        self.writers -= 1

    @property
    def eof(self):
        return self.writers <= 0 and not self.buf


class PipeReader:
    """Buffered binary reader over a pipe (Popen.stdout / stderr)."""

    def __init__(self, pipe, text=None):
        self.pipe = pipe
        self.mine = bytearray()
        self.closed = False
        self.name = pipe.name
        self.mode = 'rb'
        self.text = text

    def fileno(self):
        return 10

    def readable(self):
        return True

    def _fill(self, want=None):
        """Move pipe data to the buffer; False at end of file."""
        s = S.cur()
        p = self.pipe
        s.point('pipe.read')
        if not p.buf and p.writers > 0:
            s.block(lambda: bool(p.buf) or p.writers <= 0 or self.closed, None, 'pipe-empty')
        if not p.buf:
            # (a reader that does not see that it is over)
            self.ends = getattr(self, 'ends', 0) + 1
            if self.ends > 3000:
                raise S.Violation('the end of a pipe was read %d times' % self.ends)
            return False
        slow = p.world.slow_pipe.get(p.name)
        if slow:
            s.sleep(slow, 'slow-reader')
        n = len(p.buf)
        if n > 1 and self.world_short():
            n = 1 + s.choose(2, 'short-read') * (n - 1) if False else n
        self.mine += p.buf[:n]
        del p.buf[:n]
        return True

    def world_short(self):
        return False

    def _dec(self, b):
        return b if self.text is None else b.decode(*self.text)

    def readline(self, size=-1):
        if self.closed:
            raise ValueError('readline of closed file')
        while True:
            i = self.mine.find(b'\n')
            if i >= 0:
                r = bytes(self.mine[:i + 1])
                del self.mine[:i + 1]
                return self._dec(r)
            if size is not None and 0 <= size <= len(self.mine):
                r = bytes(self.mine[:size])
                del self.mine[:size]
                return self._dec(r)
            if not self._fill():
                r = bytes(self.mine)
                self.mine.clear()
                return self._dec(r)

    def read(self, n=-1):
        if self.closed:
            raise ValueError('read of closed file')
        while n is None or n < 0 or len(self.mine) < n:
            if not self._fill():
                break
        if n is None or n < 0:
            n = len(self.mine)
        r = bytes(self.mine[:n])
        del self.mine[:n]
        return self._dec(r)

    def read1(self, n=-1):
        if self.closed:
            raise ValueError('read of closed file')
        if not self.mine:
            self._fill()
        if n is None or n < 0:
            n = len(self.mine)
        r = bytes(self.mine[:n])
        del self.mine[:n]
        return self._dec(r)

    def readinto(self, b):
        d = self.read1(len(b))
        b[:len(d)] = d
        return len(d)

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def close(self):
        self.closed = True
        self.pipe.reader_open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class PipeWriter:
    """Popen.stdin: nobody reads it."""
    closed = False

    def write(self, b):
        return len(b)

    def flush(self):
        pass

    def close(self):
        self.closed = True


class Proc:
    """A process table entry."""

    def __init__(self, world, pid, ppid, cmd, image=None):
        self.world = world
        self.pid = pid
        self.ppid = ppid
        self.cmd = cmd
        self.image = image
        self.exit_code = None
        self.reaped = False
        self.killed_by = None

    @property
    def dead(self):
        return self.exit_code is not None

    def exit(self, code):
        if self.exit_code is None:
            self.exit_code = code
            if self.ppid == 1:
                self.reaped = True


def parse_cmd(cmd, shell):
    if shell:
        if not isinstance(cmd, str):
            cmd = cmd[0]
        return shlex.split(cmd)
    if isinstance(cmd, (str, bytes)):
        return [cmd]
    return [c if isinstance(c, str) else str(c) for c in cmd]


def install(image):
    w = image.world
    m = types.ModuleType('subprocess')
    for k in ('PIPE', 'STDOUT', 'DEVNULL', 'TimeoutExpired', 'CalledProcessError', 'SubprocessError',
              'CompletedProcess', 'list2cmdline'):
        setattr(m, k, getattr(_sp, k))
    m.CREATE_NEW_PROCESS_GROUP = 0x200
    m.DETACHED_PROCESS = 8
    m.CREATE_NO_WINDOW = 0x08000000

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                     preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                     universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                     start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                     encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
            s = S.cur()
            s.point('Popen')
            self.args = args
            self.returncode = None
            argv = parse_cmd(args, shell)
            w.popen_log.append({'args': args, 'argv': argv, 'shell': shell, 'stdin': stdin, 'stdout': stdout,
                                'stderr': stderr, 'env': env, 'cwd': cwd})
            for a in argv:
                if '\0' in a:
                    raise ValueError('embedded null byte')
            tx = None
            if encoding or errors or text or universal_newlines:
                tx = (encoding or 'utf-8', errors or 'strict')
            pipes = {}
            self.stdout = self.stderr = self.stdin = None
            if stdin == _sp.PIPE:
                self.stdin = PipeWriter()
            if stdout == _sp.PIPE:
                pipes[1] = Pipe(w, 'stdout', w.pipe_cap)
                self.stdout = PipeReader(pipes[1], tx)
            elif stdout is not None:
                pipes[1] = 'null' if stdout == _sp.DEVNULL else _file_target(stdout)
            if stderr == _sp.PIPE:
                pipes[2] = Pipe(w, 'stderr', w.pipe_cap)
                self.stderr = PipeReader(pipes[2], tx)
            elif stderr == _sp.STDOUT:
                if 1 in pipes:
                    pipes[2] = pipes[1]
                    if hasattr(pipes[1], 'writers'):
                        pipes[1].writers += 1
            elif stderr is not None:
                pipes[2] = 'null' if stderr == _sp.DEVNULL else _file_target(stderr)
            if stdout is None and image.fds.get(1) is not None:
                pipes[1] = image.fds[1]
                if hasattr(pipes[1], 'writers'):
                    pipes[1].writers += 1
            if stderr is None and image.fds.get(2) is not None:
                pipes[2] = image.fds[2]
                if hasattr(pipes[2], 'writers'):
                    pipes[2].writers += 1
            if argv and (argv[0] == 'ps' or argv[0] in w.data.get('commands', {})):
                # a command that only prints something, already ended
                out = w.command_output(argv, image)
                pid = w.new_pid()
                self._proc = w.procs[pid] = Proc(w, pid, image.proc.pid if image.proc is not None else 1, argv)
                self._proc.exit(0)
                if hasattr(pipes.get(1), 'buf'):
                    pipes[1].buf.extend(out)
                for x in pipes.values():
                    if hasattr(x, 'writer_closed'):
                        x.writer_closed()
            else:
                self._proc = w.spawn_process(argv, image, pipes, env)
            self.pid = self._proc.pid

        def _reap(self):
            if self.returncode is None and self._proc.dead:
                self.returncode = self._proc.exit_code
                self._proc.reaped = True
            return self.returncode

        def poll(self):
            S.cur().point('Popen.poll')
            return self._reap()

        def wait(self, timeout=None):
            s = S.cur()
            s.point('Popen.wait')
            if self.returncode is not None:
                return self.returncode
            if not s.block(lambda: self._proc.dead, timeout, 'waitpid'):
                raise _sp.TimeoutExpired(self.args, timeout)
            return self._reap()

        def communicate(self, input=None, timeout=None):
            s = S.cur()
            s.point('Popen.communicate')
            end = None if timeout is None else s.now + timeout
            if self.stdin is not None:
                self.stdin.close()
            got = {}
            rs = [r for r in (self.stdout, self.stderr) if r is not None]
            for r in rs:
                if r.closed:
                    raise ValueError('read of closed file')
                got[r] = bytearray()
            todo = list(rs)
            while todo:
                left = None if end is None else end - s.now
                ok = s.block(lambda: any(r.pipe.buf or r.pipe.writers <= 0 for r in todo), left, 'communicate')
                if not ok:
                    raise _sp.TimeoutExpired(self.args, timeout)
                s.point('communicate.read')
                for r in list(todo):
                    if r.pipe.buf:
                        got[r] += r.pipe.buf
                        r.pipe.buf.clear()
                    elif r.pipe.writers <= 0:
                        todo.remove(r)
                        r.close()
            self.wait(None if end is None else max(0.0, end - s.now) or 1e-9)
            out = None if self.stdout is None else self.stdout._dec(bytes(got[self.stdout]))
            er = None if self.stderr is None else self.stderr._dec(bytes(got[self.stderr]))
            return out, er

        def send_signal(self, sig):
            S.cur().point('Popen.kill')
            if self._reap() is not None:
                return
            w.kill(self.pid, sig, image)

        def kill(self):
            self.send_signal(9)

        def terminate(self):
            self.send_signal(15)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            for f in (self.stdout, self.stderr, self.stdin):
                if f is not None:
                    f.close()
            self.wait()

        def __repr__(self):
            return '<SimPopen %s>' % self.pid

    m.Popen = Popen

    def check_output(cmd, *a, **k):
        S.cur().point('check_output')
        argv = parse_cmd(cmd, k.get('shell', False))
        out = w.command_output(argv, image)
        if k.get('text') or k.get('universal_newlines') or k.get('encoding'):
            return out.decode(k.get('encoding') or 'utf-8', k.get('errors') or 'strict')
        return out
    m.check_output = check_output

    def run(cmd, *a, capture_output=False, check=False, **k):
        out = check_output(cmd, *a, **k)
        return _sp.CompletedProcess(cmd, 0, out, b'' if isinstance(out, bytes) else '')
    m.run = run
    m.getoutput = lambda c: check_output(c, shell=True, text=True)
    image.modules['subprocess'] = m

    # os ---------------------------------------------------------------
    from .image import Shim
    deny = {'fork', 'forkpty', 'execv', 'execve', 'execvp', 'execl', 'system', 'popen', 'spawnv', 'spawnl',
            'posix_spawn', 'posix_spawnp', 'register_at_fork', 'abort', '_exit', 'killpg', 'remove', 'unlink',
            'rmdir', 'rename', 'replace', 'truncate', 'chmod', 'chown', 'setuid', 'waitpid', 'wait', 'close',
            'closerange', 'pipe', 'write', 'read', 'removedirs', 'makedirs', 'mkdir', 'link', 'symlink', 'nice',
            'kill', 'open', 'fdopen', 'putenv', 'unsetenv', 'chdir'}
    om = Shim('os', _os, deny)
    om.getpid = lambda: image.proc.pid if image.proc is not None else image.pid
    om.getppid = lambda: image.proc.ppid if image.proc is not None else image.ppid

    def kill(pid, sig):
        S.cur().point('os.kill')
        w.kill(pid, sig, image)
    om.kill = kill

    def fork():
        return w.fork(image)
    om.fork = fork

    def setsid():
        image.session = True
        return image.pid
    om.setsid = setsid

    def dup2(a, b, inheritable=True):
        old = image.fds.get(b)
        if hasattr(old, 'writer_closed'):
            old.writer_closed()
        image.fds[b] = 'null' if a == 99 else image.fds.get(a)
        return b
    om.dup2 = dup2

    def write(fd, b):
        image.fd_write(fd, bytes(b))
        return len(b)
    om.write = write
    om.close = lambda fd: None

    def _exit(code):
        image.die(code)
        raise S.Killed()
    om._exit = _exit

    def waitpid(pid, opts):
        s = S.cur()
        p = w.procs.get(pid)
        if p is None or p.reaped:
            raise ChildProcessError(10, 'No child processes')
        if opts & 1 and not p.dead:
            return 0, 0
        s.block(lambda: p.dead, None, 'waitpid')
        p.reaped = True
        return pid, (p.exit_code << 8) if p.exit_code >= 0 else -p.exit_code
    om.waitpid = waitpid

    def urandom(n):
        w.rand += 1
        return (w.rand.to_bytes(4, 'big') * (n // 4 + 1))[:n]
    om.urandom = urandom
    om.environ = dict(_os.environ)
    om.getenv = lambda k, d=None: om.environ.get(k, d)
    image.modules['os'] = om
    image.modules['os.path'] = _os.path
    image.session = False
    image.proc = None

    # socket --------------------------------------------------------------
    sm = Shim('socket', _socket, ('fromfd', 'socketpair', 'create_server'))
    sm.gethostname = lambda: image.hostname
    sm.getfqdn = lambda *a: image.hostname

    class socket:
        def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
            self.family, self.type, self.proto = family, type, proto
            self.timeout = None
            self.closed = False
            w.open_tcp += 1

        def settimeout(self, t):
            if t is not None and t < 0:
                raise ValueError('Timeout value out of range')
            self.timeout = t

        def gettimeout(self):
            return self.timeout

        def setblocking(self, b):
            self.timeout = None if b else 0.0

        def setsockopt(self, *a):
            pass

        def connect(self, addr):
            S.cur().point('tcp.connect')
            if self.closed:
                raise OSError(9, 'Bad file descriptor')
            w.tcp_connect(self, addr)

        def connect_ex(self, addr):
            try:
                self.connect(addr)
                return 0
            except _socket.timeout:
                return 11
            except OSError as e:
                return e.errno or 111

        def shutdown(self, how):
            pass

        def close(self):
            if not self.closed:
                self.closed = True
                w.open_tcp -= 1

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __del__(self):
            if not self.closed:
                self.closed = True
                w.open_tcp -= 1
    sm.socket = socket

    def create_connection(addr, timeout=None, source_address=None, **k):
        s = socket()
        s.settimeout(timeout)
        try:
            s.connect(addr)
        except BaseException:
            s.close()
            raise
        return s
    sm.create_connection = create_connection
    image.modules['socket'] = sm


def _file_target(f):
    if f is None or hasattr(f, 'write') or isinstance(f, int):
        return FileTarget(f)
    return 'null'


class FileTarget:
    def __init__(self, f):
        self.f = f
        self.data = bytearray()

    def write(self, b):
        self.data += b
