"""C24: published names form one consistent namespace."""
from itertools import permutations

from ..harness import Sys, expect, Worker, pick, serve, other, wait_for, eq, true

ASSUMPTIONS = [
    'names are strings; an item published by a client without a local server is serializable or lives on the server',
    'publications from inside the server process come from a thread of their own or from a request',
]
TECHNIQUE = ('exhaustive enumeration of sequential histories of publishing and reading by the server process, two '
             'clients and a request handler, against a dictionary; concurrent programs of two and three participants '
             'under all schedules up to a deviation bound, every resulting history checked for linearizability')

VALS = ('int', 'none', 'list', 'text', 'array', 'own', 'theirs', 'fn', 'again')


def serve_w(w, mode):
    """A server, with another thread in its process."""
    def setup(rec):
        rec.sw = Worker(w, 'in-server', rec.img.import_module('threading'))
    return serve(w, 's', mode, setup=setup)


class History(Sys):
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, depth, mode, vals=VALS, **kw):
        Sys.__init__(self, **kw)
        self.depth, self.mode, self.vals = depth, mode, vals
        self.name = 'histories-%d-%s' % (depth, mode)

    def main(self, w):
        mode = self.mode
        rec = serve_w(w, mode)
        sw = rec.sw
        jobs = {'f': None, 'done': False, 'res': None}
        loc = self

        def q_main(r):
            r.c = r.tp.RPCClient(rec.addr)
            r.own = r.tp.RPCServer()
            r.own.run_in_thread()
            while True:
                w.sched.block(lambda: jobs['f'] is not None, None, 'harness-idle')
                f, jobs['f'] = jobs['f'], None
                try:
                    jobs['res'] = (f(r), None)
                except Exception as e:
                    jobs['res'] = (None, e)
                jobs['done'] = True
        q = other(w, 'q', q_main)
        c = w.tp.RPCClient(rec.addr)
        own = w.tp.RPCServer()
        own.run_in_thread()
        proxied = {'c': own.get_proxy, 's': lambda x: x, 'q': lambda x: q.own.get_proxy(x)}
        hist = []

        def at(who, f):
            """f(place) in one of the processes; place has get and set."""
            if who == 'c':
                try:
                    return f(w.tp, w.tgt, c), None
                except Exception as e:
                    return None, e
            if who == 's':
                return sw.do(lambda: f(rec.tp, rec.tgt, rec.srv))
            jobs['done'], jobs['f'] = False, lambda r: f(r.tp, r.tgt, r.c)
            wait_for(w, lambda: jobs['done'], 10, 'q')
            return jobs['res']

        names = (('a', 'b'), ('a', ''), ('y' * 300 + 'a', 'y' * 300 + 'b'), ('\xe4', 'a\u0308'), ('a', 'self2'), ('a', 'a.b'), ('a', 'A'),
                 ('a', ' a'), ('a', 'a\n'), ('a', 'a\x00'), ('1', '01'), ('y' * 70000, 'y' * 70001), ('__class__', 'run'), ('a', 'aa')
                 )[pick(w, 14, 'name')] if self.depth < 2 else ('a', 'A')
        model = {}
        n = 0
        for i in range(self.depth):
            who = ('c', 's', 'q')[pick(w, 3, 'who')]
            name = names[pick(w, 2, 'which') if i else self.depth == 1]
            vals = self.vals if self.depth < 3 or i == 0 else ('int', 'own')
            kind = vals[pick(w, len(vals), 'value')]
            if kind == 'again' and not model:
                return
            n += 1
            hist.append((who, name[:9], kind))
            what = '%s' % hist
            src = sorted(model)[0] if model else None

            def put(tp, tgt, place):
                if kind == 'int':
                    v = n
                elif kind == 'none':
                    v = None
                elif kind == 'list':
                    v = [n, 'x']
                elif kind == 'text':
                    v = 'text-%d' % n
                elif kind == 'array':
                    import numpy
                    v = numpy.arange(n)
                elif kind == 'own':
                    v = proxied[who](tgt.Obj(100 + n))
                elif kind == 'fn':
                    v = proxied[who](tgt.ret)
                elif kind == 'theirs':
                    v = place._import('mct_tgt').Obj(200 + n) if who != 's' else tgt.Obj(200 + n)
                else:
                    v = place[src]
                place[name] = v
            r, e = at(who, put)
            true(e is None, '%s: %s' % (what, e))
            model[name] = model[src] if kind == 'again' else (kind, n)
            # everyone sees it, and nothing else has changed
            for who2 in ('c', 's', 'q'):
                for nm in names:
                    self.compare(w, at, who2, nm, model.get(nm), '%s: %s reads %r' % (what, who2, nm[:9]))
            r, e = at('c', lambda tp, tgt, place: place['absent-1'])
            true(isinstance(e, w.tp.RemoteCallException) and 'absent-1' in str(e), '%s: absent name: %r' % (what, e))
            r, e = at('s', lambda tp, tgt, place: place['absent-2'])
            true(isinstance(e, KeyError) and 'absent-2' in str(e), '%s: absent name: %r' % (what, e))
        w.note(str(hist))

    def compare(self, w, at, who, name, want, what):
        if want is None:
            r, e = at(who, lambda tp, tgt, place: place[name])
            true(e is not None and (not name or name in str(e)), '%s: expected an error, got %r' % (what, e))
            return
        kind, n = want

        def look(tp, tgt, place):
            v = place[name]
            if kind in ('own', 'theirs'):
                before = v.count_me()
                again = place[name]
                proxies = [isinstance(x, tp.ObjectProxy) for x in (v, again)]
                same = v is again if not any(proxies) else bool(v == again)
                return [again.count_me() - before, v.v if not proxies[0] else v.v._get_value(), proxies, same]
            if kind == 'fn':
                return [isinstance(v, tp.ObjectProxy), v(n)]
            if kind == 'array':
                return [type(v).__name__, v.tolist()]
            return [type(v).__name__, v]
        r, e = at(who, look)
        true(e is None, '%s: %s' % (what, e))
        if kind in ('own', 'theirs'):
            v = (100 if kind == 'own' else 200) + n
            true(r[:2] == [1, v] and r[2][0] == r[2][1] and r[3], '%s: not that object: %r' % (what, r))
        elif kind == 'fn':
            eq(r[1], n, what)
        else:
            v = {'int': ['int', n], 'none': ['NoneType', None], 'list': ['list', [n, 'x']], 'text': ['str', 'text-%d' % n],
                 'array': ['ndarray', list(range(n))]}[kind]
            eq(r, v, what)
        w.cases += 1


class Lazy(Sys):
    """The server of the thread that itself makes the requests (run lazily, with a local client)."""
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, depth, **kw):
        Sys.__init__(self, **kw)
        self.depth = depth
        self.name = 'lazy-%d' % depth

    def main(self, w):
        b = serve(w, 'b')
        other_srv = None
        if pick(w, 2, 'another-server'):
            other_srv = serve(w, 'd')
        srv = w.tp.RPCServer()
        srv.run_lazy()
        RPC = w.tp.RPCClient
        remote = RPC(b.addr)._import('mct_tgt')
        addr = srv.address
        c = RPC(addr) if pick(w, 2, 'client') else w.tp.RPCServer.local_client()
        true(w.tp.RPCServer.local_client() is c, 'the local client is another one')
        if other_srv:
            RPC(other_srv.addr)['a'] = 'elsewhere'
            true(w.tp.RPCServer.local_client() is c, 'the local client is that of another server')
        obj = w.tgt.Obj(5)
        put = {'server': lambda n, v: srv.__setitem__(n, v), 'local': lambda n, v: w.tp.RPCServer.local_client().__setitem__(n, v),
               'remote': lambda n, v: remote.ns_put(addr, n, v)}
        get = {'server': lambda n: srv[n], 'local': lambda n: w.tp.RPCServer.local_client()[n],
               'remote': lambda n: remote.ns_get(addr, n)}
        model = {}
        hist = []
        for i in range(self.depth):
            who = ('server', 'local', 'remote')[pick(w, 3, 'who')]
            name = 'ab'[pick(w, 2, 'name')]
            v = (10 + i, obj, [i, 'x'], None)[pick(w, 2 if self.depth == 2 else 4, 'value')]
            hist.append((who, name, v if v is not obj else 'obj'))
            put[who](name, v)
            model[name] = v
            for who2 in get:
                for nm in 'ab':
                    what = '%s: %s reads %r' % (hist, who2, nm)
                    if nm not in model:
                        e = expect(w, (KeyError, w.tp.RemoteCallException), lambda: get[who2](nm), what)
                        true(nm in str(e), '%s: %s' % (what, e))
                        continue
                    r = get[who2](nm)
                    if model[nm] is obj:
                        if isinstance(r, w.tp.ObjectProxy):
                            r = r._get_value() if r._rpc_addr == addr and who2 != 'server' else r
                        true(r is obj, '%s: not that object: %r' % (what, r))
                    else:
                        eq(r, model[nm], what)
                    w.cases += 1
        # an item handed to another server's namespace does not show up here
        if other_srv:
            eq(RPC.get_client(other_srv.addr)['a'], 'elsewhere', '%s: the other server' % hist)
        # nothing of this is left when the server has closed
        c.close_server()
        srv2 = w.tp.RPCServer()
        srv2.run_lazy()
        c2 = w.tp.RPCServer.local_client()
        true(c2 is not c and RPC.get_client(srv2.address) is c2, 'the local client of the next server')
        for nm in model:
            expect(w, w.tp.RemoteCallException, lambda: c2[nm], '%s: %r of the earlier server' % (hist, nm))
        w.note(str(hist))


class Race(Sys):
    """Concurrent participants, each with a small program."""
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, roles, sizes, mode='forever', names=2, lines=(), json=False, **kw):
        Sys.__init__(self, **kw)
        self.roles, self.sizes, self.mode, self.names, self.lines = roles, sizes, mode, names, lines
        self.name = 'race-%s-%s-%d-%s%s' % (roles, ''.join(map(str, sizes)), names, mode, '-lines' if lines else '')

    def main(self, w):
        rec = serve_w(w, self.mode)
        alphabet = [(o, n) for n in ('a', 'b')[:self.names] for o in 'PG']
        progs = []
        for i, k in enumerate(self.sizes):
            progs.append([alphabet[pick(w, len(alphabet), 'op')] for j in range(k)])
        if not any(o == 'P' for p in progs for o, n in p) or not any(o == 'G' for p in progs for o, n in p):
            return
        # (equal roles: order does not matter)
        for i in range(len(self.roles) - 1):
            if self.roles[i] == self.roles[i + 1] and self.sizes[i] == self.sizes[i + 1] and progs[i] > progs[i + 1]:
                return
        init = pick(w, 2, 'initially') if self.names == 1 else 0
        evs = []            # (kind, who, i, op, name, value)
        go = {'n': 0}
        serial = [0]

        if init:
            rec.sw.do(lambda: rec.srv.__setitem__('a', 1000))
            w.sched.sleep(0.01, 'harness-wait')

        def body(i, place, err):
            go['n'] += 1
            w.sched.block(lambda: go['n'] == len(progs), None, 'harness-sync')
            w.free_on()
            for j, (o, n) in enumerate(progs[i]):
                v = None
                if o == 'P':
                    serial[0] += 1
                    v = 10 * (i + 1) + j
                evs.append(['inv', i, j])
                if o == 'P':
                    place[n] = v
                else:
                    try:
                        v = place[n]
                    except err as e:
                        true(n in str(e), 'error does not name %r: %s' % (n, e))
                        v = 'absent'
                evs.append(['res', i, j, o, n, v])
        done = []

        def start(i, role):
            if role == 'c':
                def f():
                    body(i, w.tp.RPCClient.get_client(rec.addr) or w.tp.RPCClient(rec.addr), w.tp.RemoteCallException)
                    done.append(i)
                w.th.Thread(target=w._guard(f), daemon=True).start()
            elif role == 's':
                wk = rec.sw

                def f():
                    try:
                        w._guard(lambda: body(i, rec.srv, KeyError))()
                    finally:
                        done.append(i)
                wk.start(f)
            else:
                def f(r):
                    body(i, r.tp.RPCClient(rec.addr), r.tp.RemoteCallException)
                    done.append(i)
                other(w, 'q%d' % i, f)
        for i, role in enumerate(self.roles):
            start(i, role)
        wait_for(w, lambda: len(done) == len(progs), 20, 'programs')
        w.free_off()
        w.cases += 1
        self.linear(evs, {'a': 1000} if init else {}, progs)
        w.note(tuple((e[1], e[2], e[5]) for e in evs if e[0] == 'res' and e[3] == 'G'))

    def linear(self, evs, init, progs):
        ops = {}
        for t, e in enumerate(evs):
            if e[0] == 'inv':
                ops[e[1], e[2]] = [t, None, None, None, None]
            else:
                ops[e[1], e[2]][1:] = [t, e[3], e[4], e[5]]
        L = list(ops.values())

        def search(left, state):
            if not left:
                return True
            first = min(o[1] for o in left)
            for k, o in enumerate(left):
                if o[0] > first:
                    continue            # something ended before it began
                inv, res, op, n, v = o
                if op == 'P':
                    s = dict(state)
                    s[n] = v
                    if search(left[:k] + left[k + 1:], s):
                        return True
                elif state.get(n, 'absent') == v and search(left[:k] + left[k + 1:], state):
                    return True
            return False
        true(search(L, init), 'no order of the operations explains the results: %s' %
             [('%d.%d' % (e[1], e[2]), e[0]) + tuple(e[3:]) for e in evs])


def scenarios(tier):
    q = tier == 'quick'
    ln = ('teleprox.server#RPCServer.__setitem__', 'teleprox.server#RPCServer.__getitem__')
    L = [(History(1, m), 0) for m in ('forever', 'thread', 'qt')]
    L += [(History(2, m, VALS if not q else ('int', 'none', 'array', 'own', 'theirs', 'fn', 'again') if m == 'forever' else ('int', 'own', 'again')), 0) for m in ('forever', 'thread', 'qt')]
    L += [(Lazy(2 if q else 3), 0)]
    if not q:
        L += [(History(3, 'forever'), 0), (History(3, 'thread'), 0)]
    if q:
        L += [(Race('sc', (2, 2), names=1), 1), (Race('cc', (2, 2), names=1), 1), (Race('cq', (2, 1)), 1),
              (Race('cq', (1, 1), names=1), 2), (Race('sq', (2, 1), 'thread'), 1), (Race('cq', (1, 1), 'qt', 1), 1),
              (Race('scq', (1, 1, 1), names=1), 1), (Race('ccq', (1, 1, 1), names=1), 1),
              (Race('sc', (2, 1), names=1, lines=ln), 1)]
    else:
        L += [(Race('cq', (1, 1), names=1), 3), (Race('sc', (2, 2)), 1), (Race('cc', (2, 2)), 1), (Race('cq', (2, 2)), 1),
              (Race('sq', (2, 1), 'thread'), 2), (Race('cq', (1, 1), 'qt', 1), 2), (Race('sq', (2, 1), 'qt'), 1),
              (Race('scq', (1, 1, 1)), 1), (Race('ccq', (1, 1, 2), names=1), 1), (Race('sc', (2, 1), names=1, lines=ln), 2),
              (Race('scq', (2, 1, 1), names=1, lines=ln), 1), (Race('sc', (2, 2), names=1), 2)]
    return L
