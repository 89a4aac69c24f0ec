"""C18: captured process output is logged completely and in order."""
from ..harness import Sys, eq, pick, true, wait_for
from .c16 import Collect

ASSUMPTIONS = [
    'the log level given for the process does not exclude INFO records',
    'how undecodable bytes are shown is left open, and whether a carriage return at the end of a line is kept',
    'records are at the log server within a second of the end of the process',
]
TECHNIQUE = ('exhaustive enumeration of outputs (sequences of chunks from an alphabet on either stream) x ends of the process '
             'with the real start_process/bootstrap/StdioLogSender in a simulated world; systematic exploration of the '
             'schedules of writing child, polling threads and stop/kill/wait/parent exit with small pipes up to a deviation bound')

CHUNKS = [b'plain\n', b'\n', b'open end', b'bad \xff\xfe bytes\n', b'100% %s %d {}\n', b'x' * 70000 + b'\n', b'one\ntwo\n', b'dos\r\n',
          '\xe4\u20ac\n'.encode(), b'\xc3', b'\xa4 rest\n', b'nul\x00\x0b\x0c\x1c\x85\n', b'  spaces \t \n', b'a\rb\n', b'\n\n\n',
          '\u2028line\u2029\n'.encode(), b'\\escaped \\xff\n', b'[kid.stderr] x\n']


def lines_of(data):
    ls = bytes(data).split(b'\n')
    if ls[-1] == b'':
        ls.pop()
    return ls


def matches(text, line):
    """Is this the text of the line?"""
    try:
        want = line.decode()
    except UnicodeDecodeError:
        i = 0
        for c in line.decode('ascii', 'ignore'):
            i = text.find(c, i) + 1
            if not i:
                return False
        return bool(text)
    return text == want or (want.endswith('\r') and text == want[:-1])


def compare(col, name, data, what):
    for fd, stream, level in ((1, 'stdout', 20), (2, 'stderr', 30)):
        prefix = '[%s.%s] ' % (name, stream)
        got = [(r.getMessage()[len(prefix):], r.levelno) for r, t in col.got
               if t is not None and r.getMessage().startswith(prefix) and r.levelno == level]
        want = lines_of(data[fd])
        short = [(g[0][:40], g[1]) for g in got]
        true(len(got) == len(want), '%s: %s: %d records instead of %d lines: %s' % (what, stream, len(got), len(want), short))
        for g, x in zip(got, want):
            true(matches(g[0], x), '%s: %s: %r logged as %r' % (what, stream, x[:80], g[0][:80]))
    n = sum(len(lines_of(data[fd])) for fd in (1, 2))
    # (none at the wrong level either)
    other = [r for r, t in col.got if r.getMessage().startswith(('[%s.stdout] ' % name, '[%s.stderr] ' % name))]
    true(len(other) == n, '%s: %d records instead of %d' % (what, len(other), n))


def collector(w, mode):
    log = w.img.import_module('teleprox.log')
    lg = w.img.modules['logging']
    root = lg.getLogger()
    if mode == 'local':
        col = Collect(w.img, root)
        return col, {'log_stdio': True}
    target = lg.getLogger('target')
    col = Collect(w.img, target)
    srv = log.LogServer(target)
    col.srv = srv
    return col, {'log_addr': srv.address}


class Outputs(Sys):
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 2000.0}

    def __init__(self, n, chunks=CHUNKS, ends=('stay', 'stop', 'kill', 'exit'), modes=('remote',), prefix='', pipe_cap=None, **kw):
        Sys.__init__(self, **kw)
        self.n, self.chunks, self.ends, self.modes, self.prefix = n, chunks, ends, modes, prefix
        if pipe_cap:
            self.opts = dict(self.opts, pipe_cap=pipe_cap)
        self.name = 'outputs-%dof%d-%s-%s%s%s' % (n, len(chunks), '+'.join(ends), '+'.join(modes), prefix, '-cap%s' % pipe_cap if pipe_cap else '')

    def main(self, w):
        seq = []
        for i in range(self.n):
            seq.append((1 + pick(w, 2, 'stream'), self.chunks[pick(w, len(self.chunks), 'chunk')]))
        end = self.ends[pick(w, len(self.ends), 'end')]
        mode = self.modes[pick(w, len(self.modes), 'mode')]
        col, kw = collector(w, mode)
        if self.prefix:
            w.img.modules['teleprox.process'].PROCESS_NAME_PREFIX = self.prefix
        p = w.tp.start_process('kid', log_level=20, **kw)
        x = p.client._import('mct_io')
        what = '%s, %s, %s' % ([(f, c[:12]) for f, c in seq], end, mode)
        # a request whose reply is awaited: everything was written
        x.write(seq)
        self.finish(w, p, end, what)
        data = {1: b'', 2: b''}
        for f, c in seq:
            data[f] += c
        if end == 'stay':
            # (nobody knows whether more will come)
            for f in (1, 2):
                if data[f] and not data[f].endswith(b'\n'):
                    data[f] = data[f][:data[f].rfind(b'\n') + 1]
        compare(col, self.prefix + 'kid', data, what)
        if end == 'stay':
            # it goes on
            x.write([(1, b'\nmore\n'), (2, b'\nmore\n')])
            p.stop()
            w.sched.sleep(0.3, 'harness-wait')
            data = {1: b'', 2: b''}
            for f, c in seq:
                data[f] += c
            for f in (1, 2):
                data[f] += b'\nmore\n'
            compare(col, self.prefix + 'kid', data, what + ', continued')
        w.cases += 1

    def finish(self, w, p, end, what):
        if end == 'stop':
            eq(p.stop(), 0, what)
        elif end == 'kill':
            eq(p.kill(), -9, what)
        elif end == 'exit':
            p.client.close_server()
            eq(p.wait(), 0, what)
        elif end == 'poll':
            p.client.close_server()
            wait_for(w, lambda: p.poll() is not None, 5, 'poll')
        w.sched.sleep(0.3, 'harness-wait')


class Several(Sys):
    """Processes of the same name, one after the other or side by side."""
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'several'

    def main(self, w):
        mode = ('remote', 'local')[pick(w, 2, 'mode')]
        together = pick(w, 2, 'together')
        n = 2 + pick(w, 2, 'n')
        names = ('kid', 'kid', 'kid') if pick(w, 2, 'names') else ('kid', 'other', 'kid2')
        end = ('stop', 'kill')[pick(w, 2, 'end')]
        col, kw = collector(w, mode)
        ps = []
        data = {}
        what = '%d processes %s, %s, %s, %s' % (n, names[:n], 'together' if together else 'one by one', mode, end)
        for i in range(n):
            p = w.tp.start_process(names[i], log_level=20, **kw)
            ps.append(p)
            d = data.setdefault(names[i], {1: b'', 2: b''})
            for f in (1, 2):
                c = b'line %d.%d\n' % (i, f)
                p.client._import('mct_io').write([(f, c)])
                d[f] += c
            w.sched.sleep(0.05, 'harness-wait')
            if not together:
                getattr(p, end)()
        if together:
            for p in ps:
                getattr(p, end)()
        w.sched.sleep(0.3, 'harness-wait')
        for name, d in data.items():
            compare(col, name, d, what)
        w.cases += 1


class Race(Sys):
    """The end comes while the child is writing."""
    lines = ('teleprox.log.stdio#run', 'teleprox.log.stdio#join', 'teleprox.process#ChildProcess')

    def __init__(self, how, seq, pipe_cap=8, latency=0.0, mode='remote', slow=0, **kw):
        Sys.__init__(self, **kw)
        self.how, self.seq, self.mode, self.slow = how, seq, mode, slow
        self.opts = {'fairq': False, 'pipe_cap': pipe_cap, 'latency': latency, 'linger_drop': True}
        self.name = 'race-%s-%d%s-cap%d%s-%s' % (how, len(seq), 'e' if seq[-1][0] == 2 else '', pipe_cap, '-lat' if latency else '', mode) + ('-slow%d' % slow if slow else '')

    def main(self, w):
        col, kw = collector(w, self.mode)
        if self.slow:
            w.slow_pipe['stdout' if self.slow == 1 else 'stderr'] = 0.3
        x = {}
        q = w.process('q') if self.how.startswith('parent') else w.img
        if self.how.startswith('parent'):
            def run():
                tp = q.import_module('teleprox')
                x['p'] = p = tp.start_process('kid', log_level=20, **kw)
                io = p.client._import('mct_io')
                w.free_on()
                if self.how in ('parent-sync', 'parent-stop', 'parent-exited', 'parent-wait'):
                    io.write(self.seq)
                elif self.how == 'parent-off':
                    io.write(self.seq, _sync='off')
                else:
                    io.later(self.seq)
                if self.how == 'parent-kill':
                    p.kill()
                elif self.how == 'parent-stop':
                    p.stop()
                elif self.how in ('parent-exited', 'parent-wait'):
                    p.client.close_server(sync='off')
                    if self.how == 'parent-wait':
                        p.wait()
                    else:
                        # (it ends by itself)
                        while p.poll() is None:
                            q.modules['time'].sleep(0.02)
                        p.stop()
            w.start(q, lambda: w._guard(run)(), driver=False)
            wait_for(w, lambda: q.state == 'dead', 30, 'the parent')
            w.free_off()
            true(not q.unhandled, '%s: %r' % (self.name, q.unhandled[:1]))
        else:
            p = w.tp.start_process('kid', log_level=20, **kw)
            io = p.client._import('mct_io')
            before = w.sched.now
            io.later(self.seq)
            w.free_on()
            if self.how == 'stop':
                r = p.stop()
            elif self.how == 'kill':
                r = p.kill()
            elif self.how == 'crash':
                kid = [i for i in w.images if i is not w.img][-1]
                w.sched.point('crash')
                kid.die(3)
                r = p.wait()
            elif self.how == 'twice':
                p.client.close_server()
                p.wait()
                r = p.stop()
            elif self.how == 'stay':
                r = None
                w.sched.sleep(0.5, 'harness-wait')
                p.stop()
            w.free_off()
        kid = [i for i in w.images if i not in (w.img, q)][-1]
        true(kid.state == 'dead', '%s: the process is still there' % self.name)
        w.sched.sleep(0.5, 'harness-wait')
        sent = {f: bytes(kid.fds[f].sent) for f in (1, 2)}
        full = {f: b''.join(c for g, c in self.seq if g == f) for f in (1, 2)}
        for f in (1, 2):
            # (what was written)
            true(full[f].startswith(sent[f]), '%s: unexpected output %r' % (self.name, sent[f]))
            if self.how in ('stay', 'parent-sync', 'parent-off', 'parent-stop', 'parent-exited', 'parent-wait'):
                eq(sent[f], full[f], '%s: the process could not write' % self.name)
        compare(col, 'kid', sent, '%s: written %s' % (self.name, sent))
        w.note(str(sent))


def scenarios(tier):
    q = tier == 'quick'
    b = 1 if q else 2
    few = [b'plain\n', b'\n', b'open end', b'bad \xff\n', b'\xc3', b'\xa4 rest\n', b'a\rb\r\n']
    L = [(Outputs(1, modes=('remote', 'local')), 0), (Outputs(1, CHUNKS[:4], prefix='pre-'), 0),
         (Outputs(1, CHUNKS[:6], ends=('poll', 'stay'), modes=('remote', 'local')), 0)]
    if q:
        L += [(Outputs(2, CHUNKS[:14], ends=('stop',)), 0), (Outputs(2, few, ends=('stay',)), 0), (Outputs(3, few[:4], ends=('kill',)), 0)]
    else:
        L += [(Outputs(2, modes=('remote', 'local')), 0), (Outputs(3, few), 0), (Outputs(3, CHUNKS, ends=('stop',)), 0),
              (Outputs(4, few[:5], ends=('kill',), pipe_cap=3), 0)]
    L += [(Outputs(2, few, ends=('stop',), pipe_cap=4), 0), (Several(), 0)]
    seq = [(1, b'first line\n'), (2, b'other stream\n'), (1, b'last')]
    short = [(1, b'ab\n'), (2, b'cd\n')]
    L += [(Race(how, s, cap, lat), bb) for how, s, cap, lat, bb in (
        ('stop', seq, 8, 0.0, b), ('kill', seq, 8, 0.0, b), ('crash', seq, 8, 0.0, b), ('stay', seq, 3, 0.0, b),
        ('stop', short, 2, 0.0, b + (not q)), ('kill', short, 64, 0.0, b + (not q)), ('twice', short, 64, 0.0, b),
        ('parent-stop', seq, 8, 0.0, b), ('parent-exited', seq, 64, 0.0, b), ('parent-wait', short, 64, 0.0, b),
        ('parent-sync', seq, 8, 0.0, b), ('parent-off', short, 64, 0.0, b), ('parent-later', seq, 8, 0.0, b), ('parent-kill', seq, 8, 0.01, b))]
    errs = [(1, b'ab\n'), (2, b'x\n'), (2, b'y\n'), (2, b'z')]
    L += [(Race(how, errs, cap, 0.0), b) for how, cap in (('parent-stop', 64), ('parent-stop', 3), ('parent-kill', 64), ('parent-wait', 64))]
    # (a thread that reads the output does not get to run for a while)
    L += [(Race(how, s, 64, slow=f), 0 if q else 1) for f in (1, 2) for how in ('parent-stop', 'parent-wait', 'parent-exited', 'stop', 'kill')
          for s in (short, short[::-1])]
    L += [(Race('stop', seq, 8, mode='local'), b), (Race('kill', short, 64, mode='local'), b)]
    return L
