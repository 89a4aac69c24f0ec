"""C14: starting a process yields a connected client or a clean failure."""
from ..harness import Gate, Sys, eq, expect, pick, threads, true, wait_for
from .c16 import Collect

ASSUMPTIONS = [
    'the level of the process is left open if none was asked for, and its name if none was given (except that both sides agree)',
    'a process that was started through a shell or conda replaces it',
    'a daemon that cannot be reported to the starting process may take 30 s to notice it',
]
TECHNIQUE = ('exhaustive enumeration of argument forms (every choice of up to k arguments that differ from the default), of '
             'the steps of the starting process at which it dies or hangs, and of start-up failures, with the real '
             'start_process and bootstrap code in simulated processes; systematic exploration of the handshake\'s schedules '
             'and message delays up to a deviation bound')

LEVELS = {'debug': 10, 'INFO': 20, 'Warning': 30, 'critical': 50, 'notset': 0, 'NOTSET': 0}
FORMS = {
    'name': ['kid', 'k\xe4se x', '-dash', "it's; $x \"q\" \\ *", '--', 'a=b', '--qt', 'a\tb'],
    'address': ['tcp://127.0.0.1:*', b'tcp://127.0.0.1:*', 'tcp://127.0.0.1:7001', b'tcp://127.0.0.1:7001'],
    'qt': [True],
    'log_addr': ['set', 'str', 'bytes'],
    'log_level': [10, 30, 'debug', 'INFO', 'Warning', 'critical', 35, 1, 0, 'notset', 'NOTSET'],
    'log_stdio': [True, False],
    'executable': ['python3', '/usr/bin/python-sim'],
    'shell': [True],
    'conda_env': ['env', 'my-env.2'],
    'serializer': ['json'],
    'start_local_server': [True],
    'daemon': [True],
    'stdin': [-1, -3],
    'stdout': [-1, -3],
    'stderr': [-1, -2, -3],
    'prefix': ['pre:', 'p x\'', '-p', ' sp '],
    'via': ['ProcessSpawner', 'positional'],
}
ORDER = ['name', 'address', 'qt', 'log_addr', 'log_level', 'log_stdio', 'executable', 'shell', 'conda_env', 'serializer',
         'start_local_server', 'daemon', 'stdin', 'stdout', 'stderr']
DEFAULTS = dict(name=None, address='tcp://127.0.0.1:*', qt=False, log_addr=None, log_level=None, log_stdio=None, executable=None,
                shell=False, conda_env=None, serializer='msgpack', start_local_server=False, daemon=False, stdin=None,
                stdout=None, stderr=None)
KEYS = sorted(FORMS)


def alive(w, but=()):
    return [p for p in w.procs.values() if not p.dead and p.image is not w.img and p.image not in but]


def none_left(w, timeout, what, but=()):
    """No spawned process is running."""
    if not w.sched.block(lambda: not alive(w, but), timeout, 'harness-wait'):
        true(False, '%s: left running: %s' % (what, [(p.pid, p.cmd) for p in alive(w, but)]))


class Forms(Sys):
    """Every choice of k arguments that differ from the default."""
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, k, forms=None, always=None, **kw):
        Sys.__init__(self, **kw)
        self.k, self.forms, self.always = k, forms or FORMS, always or {}
        self.name = 'forms-%d-of-%d%s' % (k, sum(map(len, self.forms.values())), ''.join('-' + x for x in self.always))

    def main(self, w):
        given = dict(self.always)
        last = -1
        keys = [k for k in KEYS if k in self.forms and k not in given]
        for i in range(self.k):
            if last + 1 >= len(keys):
                break
            n = pick(w, len(keys) - last, 'argument')       # 0: no more
            if not n:
                break
            last += n
            v = self.forms[keys[last]]
            given[keys[last]] = v[pick(w, len(v), 'form')]
        self.start(w, given)

    def start(self, w, given):
        what = ', '.join('%s=%r' % kv for kv in given.items()) or 'defaults'
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        prefix = given.get('prefix', '')
        w.img.modules['teleprox.process'].PROCESS_NAME_PREFIX = prefix
        kw = {k: v for k, v in given.items() if k in DEFAULTS}
        srv = col = None
        if 'log_addr' in given:
            target = lg.getLogger('target')
            target.setLevel(1)
            col = Collect(w.img, target)
            srv = log.LogServer(target)
            how = kw.pop('log_addr')
            addr = srv.address if isinstance(srv.address, bytes) else srv.address.encode()
            if how == 'set':
                log.set_logger_address(srv.address)
            else:
                kw['log_addr'] = addr if how == 'bytes' else addr.decode()
        f = w.tp.start_process
        if given.get('via') == 'ProcessSpawner':
            f = w.img.import_module('teleprox.processspawner').ProcessSpawner
        daemon = given.get('daemon', False)
        std = [k for k in ('stdin', 'stdout', 'stderr') if k in given]
        out = [k for k in ('stdout', 'stderr') if k in given]
        bad = (given.get('log_stdio') is True and (daemon or out)) or (daemon and std)
        try:
            if given.get('via') == 'positional':
                p = f(*[kw.get(k, DEFAULTS[k]) for k in ORDER])
            else:
                p = f(**kw)
        except Exception as e:
            true(bad, '%s: %s: %s' % (what, type(e).__name__, str(e)[-300:]))
            true(str(e), '%s: %s does not say why' % (what, type(e).__name__))
            none_left(w, 0.0, what)
            w.cases += 1
            return
        true(not bad, '%s: started although the documentation excludes it' % what)
        self.check(w, p, given, what, kw, prefix, srv, col)
        w.cases += 1

    def check(self, w, p, given, what, kw, prefix, srv, col):
        daemon = given.get('daemon', False)
        kids = alive(w)
        true(len(kids) == 1, '%s: %d processes are running' % (what, len(kids)))
        kid = kids[0].image
        x = p.client._import('mct_boot')
        info = x.info(_return_type='value')
        eq(p.pid, kid.proc.pid, what + ': pid')
        eq(info['pid'], kid.proc.pid, what + ': pid')
        if 'name' in given:
            eq(info['name'], prefix + given['name'], what + ': name')
        true(isinstance(info['name'], str) and info['name'].startswith(prefix), '%s: name %r' % (what, info['name']))
        eq(p.name, info['name'], what + ': name')
        eq(info['prefix'], prefix, what + ': prefix')
        a = p.client.address
        want = given.get('address', 'tcp://127.0.0.1:*')
        want = want.decode() if isinstance(want, bytes) else want
        if want.endswith('*'):
            true(a.decode().startswith(want[:-1]), '%s: address %r' % (what, a))
        else:
            eq(a.decode(), want, what + ': address')
        lv = given.get('log_level')
        if lv is not None:
            eq(info['level'], LEVELS.get(lv, lv), what + ': level')
        if srv is not None and not (daemon and given['log_addr'] == 'set'):
            sa = srv.address if isinstance(srv.address, bytes) else srv.address.encode()
            eq(info['log'], sa, what + ': log address')
            x.log('from the process')
            w.sched.sleep(0.2, 'harness-wait')
            rs = [r for r, t in col.got if t is not None and r.getMessage() == 'from the process']
            true(len(rs) == 1, '%s: the record arrived %d times' % (what, len(rs)))
            eq(rs[0].process_name, info['name'], what + ': process name in the record')
        elif srv is None:
            eq(info['log'], None, what + ': log address')
        qt = given.get('qt', False)
        eq(info['app'], qt, what + ': application')
        eq(info['server'], 'QtRPCServer' if qt else 'RPCServer', what + ': server')
        eq(info['main'], True, what + ': runs in the main thread')
        eq(p.qt, qt, what + ': qt')
        eq(kid.fds.get(1) == 'null', daemon or given.get('stdout') == -3, what + ': discarded output')
        argv = list(w.popen_log[0]['argv'])
        if 'conda_env' in given:
            eq(argv[:2], ['conda', 'run'], what + ': command')
            eq(argv[argv.index('-n') + 1], given['conda_env'], what + ': environment')
            argv = argv[argv.index('-n') + 2:]
            eq(argv[0], given.get('executable', 'python'), what + ': executable')
        else:
            eq(argv[0], given.get('executable', '/usr/bin/python-sim').split()[0], what + ': executable')
        eq(w.popen_log[0]['shell'], given.get('shell', False), what + ': shell')
        for k in ('stdin', 'stdout', 'stderr'):
            if k in given:
                eq(w.popen_log[0][k], given[k], what + ': ' + k)
        if given.get('log_stdio') and srv is not None:
            kid.fd_write(1, b'printed\n')
            w.sched.sleep(0.2, 'harness-wait')
            rs = [r for r, t in col.got if t is not None and 'printed' in r.getMessage()]
            if lv is not None and LEVELS.get(lv, lv) <= 20:
                true(len(rs) == 1, '%s: output was logged %d times' % (what, len(rs)))
        eq(kid.proc.ppid == 1, daemon, what + ': detached')
        eq(bool(kid.session), daemon, what + ': session')
        if given.get('start_local_server'):
            got = []

            def f(v):
                got.append(v)
                return 5
            eq(x.call(f, 7), 5, what + ': call back')
            eq(got, [7], what + ': call back')
        # (a process that it starts takes after it)
        if prefix or 'log_level' in given:
            n, i2 = x.child(name='sub')
            eq(i2['name'], prefix + 'sub', what + ': name of a process started by the process')
        eq(kid.unhandled, [], what + ': reported in the process')
        if daemon:
            p.stop()
            none_left(w, 1.0, what)
        else:
            eq(p.stop(), 0, what + ': stop')
            none_left(w, 0.0, what)


FAIL = ('in use', 'no address', 'no host', 'no qt', 'no command', 'exits', 'exits 0', 'garbage', 'silent', 'no module', 'talks then exits',
        'bad serializer', 'bad level')


class Fails(Sys):
    """The process cannot do what is asked for; then the same again, correctly."""
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, daemons=(False, True), **kw):
        Sys.__init__(self, **kw)
        self.name = 'fails'
        self.daemons = daemons

    def main(self, w):
        how = FAIL[pick(w, len(FAIL), 'how')]
        daemon = self.daemons[pick(w, len(self.daemons), 'daemon')]
        qt = bool(pick(w, 2, 'qt'))
        logged = pick(w, 2, 'log')
        twice = 1 + pick(w, 2, 'twice')
        what = '%s%s%s%s' % (how, ', daemon' if daemon else '', ', qt' if qt else '', ', logged' if logged else '')
        kw = {'daemon': daemon, 'qt': qt, 'name': 'kid'}
        if logged:
            log = w.img.import_module('teleprox.log')
            srv = log.LogServer(w.img.modules['logging'].getLogger('target'))
            kw['log_addr'] = srv.address
        first = None
        says = None
        if how == 'in use':
            first = w.tp.start_process('first', address='tcp://127.0.0.1:7001')
            kw['address'] = 'tcp://127.0.0.1:7001'
            says = 'in use'
        elif how == 'no address':
            kw['address'] = 'bogus'
            says = 'nvalid argument'
        elif how == 'no host':
            kw['address'] = 'tcp://127.0.0.1:notaport'
            says = 'nvalid argument'
        elif how == 'no qt':
            kw['qt'] = True
            w.child_setup = lambda img: img.qt.update(importable=())
        elif how == 'no command':
            kw['executable'] = '/nowhere/python'
        elif how == 'no module':
            # a python without the package
            def setup(img):
                img.finders['teleprox'] = lambda name: None
            w.child_setup = setup
        elif how in ('exits', 'exits 0', 'garbage', 'silent', 'talks then exits'):
            kw['executable'] = 'prog'
            w.programs['prog'] = {
                'exits': lambda img: _exit(3), 'exits 0': lambda img: None,
                'garbage': lambda img: _garbage(w, img), 'silent': lambda img: w.sched.sleep(500, 'harness-wait'),
                'talks then exits': lambda img: (img.fd_write(1, b'x' * 200000), img.fd_write(2, b'y' * 90000 + b'\n'))}[how]
        elif how == 'bad serializer':
            kw['serializer'] = 'nonesuch'
            says = 'nonesuch'
        elif how == 'bad level':
            kw['log_level'] = 'nonesuch'
        keep = [first and [p.image for p in w.procs.values() if p.image is not w.img][0]]
        for i in range(twice):
            e = expect(w, Exception, lambda: w.tp.start_process(**kw), what)
            true(str(e), '%s: %s does not say why' % (what, type(e).__name__))
            if says:
                true(says in str(e), '%s: the message does not say %r: %s' % (what, says, str(e)[-200:]))
            # (a daemon has to find out by itself)
            none_left(w, 30.0 if daemon else 0.0, what, keep)
        if first is not None:
            # the other one is not affected
            eq(first.client._import('mct_boot').info(_return_type='value')['name'], 'first', what + ': first')
            eq(first.stop(), 0, what + ': first')
        # the same without the fault
        w.child_setup = None
        for k in ('executable', 'serializer', 'log_level') + (() if first else ('address',)):
            kw.pop(k, None)
        p = w.tp.start_process(**kw)
        i = p.client._import('mct_boot').info(_return_type='value')
        eq((i['name'], i['pid']), ('kid', p.pid), what + ': afterwards')
        p.stop()
        none_left(w, 1.0, what)
        w.cases += 1


def _exit(c):
    raise SystemExit(c)


def _garbage(w, img):
    """Sends something else to the starting process."""
    zmq = img.import_module('zmq')
    addr = [a for a in w.popen_log[-1]['argv'] if a.startswith('--bootstrap_addr=')]
    s = zmq.Context.instance().socket(zmq.PAIR)
    s.connect(addr[0].partition('=')[2])
    s.send(b'not a status')
    w.sched.sleep(500, 'harness-wait')


class Dies(Sys):
    """The starting process dies or hangs at its n-th step."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}

    def __init__(self, steps=60, kws=({},), **kw):
        Sys.__init__(self, **kw)
        self.steps, self.kws = steps, kws
        self.name = 'dies-%d-%s' % (steps, '+'.join(''.join(sorted(k)) or 'default' for k in kws))

    def main(self, w):
        kw = dict(self.kws[pick(w, len(self.kws), 'form')])
        how = ('killed', 'hangs', 'slow', 'exits')[pick(w, 4, 'how')]
        # (more than the number of steps: nothing happens)
        at = pick(w, self.steps, 'step')
        what = '%s at step %d %s' % (how, at, sorted(kw))
        daemon = kw.get('daemon', False)
        if kw.pop('logged', False):
            log = w.img.import_module('teleprox.log')
            srv = log.LogServer(w.img.modules['logging'].getLogger('target'))
            kw['log_addr'] = srv.address
        st = {'n': 0, 'in': False, 'done': False, 'time': w.sched.now}
        op, ob = w.sched.point, w.sched.block

        def step():
            t = w.sched.current
            if st['in'] or t is None or t.image is w.img or t.image is None or t.image.state == 'dead' or t.name[-5:] != '/main':
                return
            if st['n'] == at and not st['done']:
                st['done'] = True
                if how == 'killed' or how == 'exits':
                    t.image.die(-11 if how == 'killed' else 1)
                    ob(lambda: False, None, 'dead')
                ob(lambda: False, None if how == 'hangs' else 10.3, 'hang')
            st['n'] += 1

        def point(label):
            step()
            return op(label)

        def block(cond, timeout=None, label='block'):
            step()
            return ob(cond, timeout, label)
        w.sched.point, w.sched.block = point, block
        try:
            p = w.tp.start_process('kid', **kw)
        except Exception as e:
            w.sched.point, w.sched.block = op, ob
            true(st['done'], '%s: %s: %s' % (what, type(e).__name__, str(e)[-300:]))
            true(str(e), '%s: %s does not say why' % (what, type(e).__name__))
            if how == 'hangs' and daemon:
                # nobody knows about a process that does not do anything (not even its id)
                w.note(how, at, 'failed')
                w.cases += 1
                return
            none_left(w, 45.0 if daemon else 0.0, what)
            w.note(how, at, type(e).__name__)
        else:
            st['in'] = True
            w.sched.point, w.sched.block = op, ob
            dead = not alive(w)
            w.note(how, at, 'ok', dead)
            if not st['done'] or how == 'slow':
                w.sched.sleep(11, 'harness-wait')
                x = p.client._import('mct_boot')
                i = x.info(_return_type='value')
                eq((i['name'], i['pid']), ('kid', p.pid), what)
                if daemon:
                    p.stop()
                else:
                    eq(p.stop(), 0, what)
                none_left(w, 1.0, what)
            else:
                # it was connected
                true(p.client.address, what)
        w.cases += 1


class Handshake(Sys):
    """Schedules and delays of the start-up."""

    def __init__(self, n=1, delays=(), latency=0.0, kw=None, boot=0.0, lines=(), time_dev=False, same=None, **k):
        Sys.__init__(self, **k)
        self.n, self.kw, self.boot, self.same = n, dict(kw or {}), boot, same
        self.lines = lines
        self.opts = {'delays': delays, 'latency': latency, 'fairq': False, 'time_dev': time_dev, 'horizon': 2000.0}
        self.name = 'handshake-%d-%s-%s-%s-%s%s%s%s' % (n, '+'.join(map(str, delays)), latency, boot, '+'.join(sorted(self.kw)),
                                                      '-lines' if lines else '', '-time' if time_dev else '', same or '')

    def main(self, w):
        kw = dict(self.kw)
        daemon = kw.get('daemon', False)
        if kw.pop('logged', False):
            log = w.img.import_module('teleprox.log')
            srv = log.LogServer(w.img.modules['logging'].getLogger('target'))
            kw['log_addr'] = srv.address
        if self.boot:
            boot = self.boot if isinstance(self.boot, tuple) else (self.boot,)
            self.d = d = boot[pick(w, len(boot), 'boot')]

            def setup(img):
                f = img.boot
                img.boot = lambda: (w.sched.sleep(d, 'harness-boot'), f())
            w.child_setup = setup
        got = {}
        if self.n == 1:
            w.free_on()
            self.one(w, 0, kw, got)
            w.free_off()
        else:
            threads(w, [lambda sync, i=i: (sync(), self.one(w, i, kw, got)) for i in range(self.n)], 100)
        ok = 0
        for i in range(self.n):
            p, e = got[i]
            what = 'start %d' % i
            if p is None:
                true(self.may_fail(e), '%s: %s: %s' % (what, type(e).__name__, str(e)[-300:]))
                true(str(e), '%s: %s does not say why' % (what, type(e).__name__))
                continue
            ok += 1
            x = p.client._import('mct_boot')
            inf = x.info(_return_type='value')
            eq((inf['name'], inf['pid']), ('kid%d' % i, p.pid), what)
            eq(p.name, 'kid%d' % i, what)
            if self.same:
                eq(p.client.address, self.same.encode(), what)
        if self.same:
            eq(ok, 1, 'processes at the same address')
        # those that failed do not go on
        w.sched.sleep(25.0 if daemon else 0.0, 'harness-wait')
        n = len(alive(w))
        true(n == ok, '%d processes running, %d started' % (n, ok))
        for i in range(self.n):
            p, e = got[i]
            if p is not None:
                if daemon:
                    p.stop()
                else:
                    eq(p.stop(), 0, 'stop')
        none_left(w, 1.0, 'stop')
        bad = [u for img in w.images for u in img.unhandled]
        # (what a process reports that was given up is left open)
        true(not bad or ok < self.n, 'reported: %r' % (bad[:1],))
        w.cases += 1
        w.note(ok, [type(got[i][1]).__name__ for i in got])

    def may_fail(self, e):
        if self.same:
            return 'in use' in str(e)
        # (a process gets several seconds to start)
        return self.boot and self.d >= 9 or any(d >= 4 for d in self.opts['delays'])

    def one(self, w, i, kw, got):
        kw = dict(kw)
        if self.same:
            kw['address'] = self.same
        try:
            got[i] = (w.tp.start_process('kid%d' % i, **kw), None)
        except Exception as e:
            got[i] = (None, e)


class Sequence(Sys):
    """Starts, stops and kills one after the other, with the same or any address."""
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, n, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'sequence-%d' % n

    def main(self, w):
        running = []        # [process, name, fixed]
        fixed = 'tcp://127.0.0.1:7001'
        ops = ('start', 'start fixed', 'stop', 'kill', 'crash', 'start daemon fixed')
        hist = []
        for k in range(self.n):
            op = ops[pick(w, len(ops), 'op')]
            hist.append(op)
            what = ' / '.join(hist)
            if op.startswith('start'):
                name = 'kid%d' % k
                kw = {'daemon': 'daemon' in op}
                if 'fixed' in op:
                    kw['address'] = fixed
                    if any(r[2] for r in running):
                        expect(w, Exception, lambda: w.tp.start_process(name, **kw), what)
                        if kw['daemon']:
                            w.sched.sleep(1.0, 'harness-wait')
                        self.look(w, running, what)
                        continue
                running.append([w.tp.start_process(name, **kw), name, 'fixed' in op])
            elif running:
                p, name, fx = running.pop()
                daemon = type(p).__name__ == 'DaemonProcess'
                if op == 'stop':
                    r = p.stop()
                elif op == 'kill':
                    r = p.kill()
                else:
                    [q.image.die(-11) for q in alive(w) if q.pid == p.pid]
                w.sched.sleep(0.5, 'harness-wait')
            self.look(w, running, what)
        for p, name, fx in running:
            p.stop()
        none_left(w, 1.0, what)
        w.cases += 1

    def look(self, w, running, what):
        for p, name, fx in running:
            i = p.client._import('mct_boot').info(_return_type='value')
            eq((i['name'], i['pid']), (name, p.pid), what)
        true(len(alive(w)) == len(running), '%s: %d processes running' % (what, len(alive(w))))


def scenarios(tier):
    q = tier == 'quick'
    P = ('teleprox.process#start_process',)
    dies = ({}, {'daemon': True}, {'qt': True}, {'logged': True})
    L = [(Forms(2), 0), (Fails(), 0),
         (Dies(40, dies[:2]), 0), (Dies(60, dies[2:]), 0),
         (Sequence(3 if q else 4), 0),
         (Handshake(1), 2 if q else 4), (Handshake(1, kw={'daemon': True}), 2 if q else 3),
         (Handshake(1, (0.015, 0.3)), 2 if q else 3), (Handshake(1, (0.015, 5.0, 11.0)), 1 if q else 3),
         (Handshake(1, (0.015, 5.0, 11.0), kw={'daemon': True}), 1 if q else 3),
         (Handshake(1, (), 0.15), 1 if q else 3), (Handshake(1, (), 0.003), 2 if q else 3),
         (Handshake(1, boot=(1.0, 5.0, 9.5, 9.985, 9.995, 10.0, 10.005, 11.0)), 1 if q else 2),
         (Handshake(1, boot=(1.0, 5.0, 9.5, 9.985, 9.995, 10.0, 10.005, 11.0), kw={'daemon': True}), 1 if q else 2),
         (Handshake(2, lines=P), 1 if q else 2), (Handshake(2), 1 if q else 3), (Handshake(2, kw={'logged': True}), 1 if q else 2),
         (Handshake(2, same='tcp://127.0.0.1:7001'), 1 if q else 3),
         (Handshake(2, same='tcp://127.0.0.1:7001', kw={'daemon': True}), 1 if q else 2)]
    if not q:
        L += [(Forms(3), 0), (Dies(60, ({'qt': True, 'daemon': True}, {'logged': True, 'daemon': True}, {'qt': True, 'logged': True})), 0),
              (Handshake(3), 2), (Handshake(1, time_dev=True), 3), (Handshake(1, time_dev=True, kw={'daemon': True}), 3)]
    return L
