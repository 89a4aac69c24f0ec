"""C11: copy-or-proxy decisions and call options are honoured."""
from ..harness import Sys, pick, serve, eq, true

ASSUMPTIONS = [
    'the serializable types in force always include those that the protocol itself uses (None, tuple, proxies) and '
    'those that the message format has natively (numbers, strings, lists, dictionaries)',
    'option values as documented; None (use the default) is not tried; with a timeout of 0 a call that is answered '
    'at once may succeed or time out',
]
TECHNIQUE = ('exhaustive enumeration of value types x serializable-type settings x options given at call, proxy and '
             'client level, and of all histories of option changes on a family of proxies, on the real client and '
             'server against a reference model of the options in effect')

SETTINGS = ('default', 'more', 'fewer')


class Base(Sys):
    opts = {'max_steps': 1000000, 'fairq': False}

    def up(self, w, srv=None, cli=None, serializer='msgpack', mode='forever'):
        self.O = w.img.import_module('mct_opt')
        self.O = w.img.modules['mct_opt']
        ser = w.img.import_module('teleprox.serializer')
        self.types = self.O.settings(ser, srv or 'default') or ser.default_serialize_types
        self.ctypes = self.O.settings(ser, cli or 'default') or ser.default_serialize_types
        kw = {}
        if srv not in (None, 'default'):
            kw['serialize_types'] = lambda rec: rec.img.import_module('mct_opt') and rec.img.modules['mct_opt'].settings(
                rec.img.import_module('teleprox.serializer'), srv)
        self.rec = serve(w, mode=mode, **kw)
        self.rec.img.import_module('mct_opt')
        self.R = self.rec.img.modules['mct_opt']
        self.c = w.tp.RPCClient(self.rec.addr, serializer=serializer, serialize_types=self.O.settings(ser, cli or 'default'))
        self.P = w.tp.ObjectProxy
        self.w = w

    def unwrap(self, p):
        return self.rec.srv.unwrap_proxy(p)


class Results(Base):
    name = 'results'

    def main(self, w):
        srv = SETTINGS[pick(w, 3, 'server_types')]
        ser = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        client = (None, 'auto', 'proxy', 'value')[pick(w, 4, 'client_option')]
        self.up(w, srv=srv, serializer=ser, mode='forever')
        if client:
            self.c.default_proxy_options['return_type'] = client
        t = self.c._import('mct_opt')
        O, R = self.O, self.R
        json = ser == 'json'
        for n in O.NAMES:
            v = R.BY_NAME[n]
            if json and n in ('tuple',):
                want = list(v)
            else:
                want = v
            simple = isinstance(v, self.types)
            self.c['item'] = 0
            self.rec.srv['item'] = v
            for prox in (None, 'auto', 'proxy', 'value'):
                for call in (None, 'auto', 'proxy', 'value'):
                    for sync in ('sync', 'async'):
                        f = t.get
                        if prox:
                            f._set_proxy_options(return_type=prox)
                        kw = {'_return_type': call} if call else {}
                        r = f(n, **kw) if sync == 'sync' else f(n, _sync='async', **kw).result(5)
                        eff = call or prox or client or 'auto'
                        what = '%s result, options call=%s proxy=%s client=%s, %s server types' % (n, call, prox, client, srv)
                        self.judge(r, v, want, eff == 'proxy' or not simple, what)
            what = '%s, %s server types' % (n, srv)
            self.judge(self.c['item'], v, want, not simple, 'item ' + what)
            p = t.get(n, _return_type='proxy')
            self.judge(self.c.get_obj(p), v, want, not simple, 'get_obj of ' + what)
            self.judge(self.c.get_obj(p, return_type='proxy'), v, want, True, 'get_obj by proxy of ' + what)
            for how in ('list', 'tuple', 'dict', 'deep'):
                r = t.nested(n, how, _return_type='auto')
                r = {'list': lambda: r[0], 'tuple': lambda: r[1], 'dict': lambda: r['k'],
                     'deep': lambda: r[0]['a'][0]}[how]()
                self.judge(r, v, want, not simple, '%s in %s' % (what, how))
        w.note(srv, ser, client)

    def judge(self, r, v, want, proxy, what):
        self.w.cases += 1
        if proxy:
            true(type(r) is self.P, '%s: arrived by value: %r' % (what, r))
            true(self.unwrap(r) is v, '%s: proxy to another object' % what)
        else:
            true(type(r) is not self.P, '%s: arrived by proxy' % what)
            true(self.O.same(r, want) or isinstance(v, self.O.np.floating), '%s: arrived as %r' % (what, r))


class Arguments(Base):
    name = 'arguments'

    def main(self, w):
        local = ('none', 'lazy', 'start_local', 'other_thread', 'qt', 'closed')[pick(w, 6, 'local_server')]
        cli = SETTINGS[pick(w, 3, 'client_types')]
        if local == 'start_local':
            self.up(w, cli=None)
            self.c.close()
            ser = w.img.import_module('teleprox.serializer')
            self.ctypes = self.O.settings(ser, cli) or ser.default_serialize_types
            self.c = w.tp.RPCClient(self.rec.addr, start_local_server=True, serialize_types=self.O.settings(ser, cli))
            srv = w.tp.RPCServer.get_server()
            true(srv is not None, 'start_local_server started no server')
        else:
            self.up(w, cli=cli)
            srv = None
        if local in ('lazy', 'closed'):
            srv = w.tp.RPCServer()
            srv.run_lazy()
            if local == 'closed':
                srv.close()
                srv = None
        elif local == 'other_thread':
            s = w.tp.RPCServer()
            s.run_in_thread()
            w.sched.sleep(0.01, 'harness-wait')
        elif local == 'qt':
            w.app = w.img.import_module('teleprox.qt').QApplication([])
            srv = w.tp.QtRPCServer(quit_on_close=False)
            srv.run_forever()
        t = self.c._import('mct_opt')
        sent = []
        w.net.monitor = lambda sock, conn, frames: sent.append(frames)
        O = self.O
        rp = t.thing(_return_type='proxy')
        for n in O.NAMES:
            v = O.BY_NAME[n]
            # (these are part of the message format)
            simple = isinstance(v, self.ctypes)
            forms = {'positional': lambda: t.take(v), 'keyword': lambda: t.take(1, x=v),
                     'in list': lambda: t.take([v]), 'in dict': lambda: t.take({'k': v}), 'in tuple': lambda: t.take((0, v)),
                     'asynchronous': lambda: t.take(v, _sync='async').result(5), 'no reply': lambda: t.take(v, _sync='off'),
                     'item': lambda: self.c.__setitem__('it', v), 'attribute': lambda: setattr(rp, 'x', v),
                     'transfer': lambda: self.c.transfer(v)}
            for how, f in forms.items():
                w.cases += 1
                what = '%s %s, local server: %s, %s client types' % (n, how, local, cli)
                self.R.GOT = None
                n0 = len(sent)
                try:
                    r = f()
                    err = None
                except Exception as e:
                    err = e
                if not simple and srv is None:
                    true(type(err) is TypeError, '%s: expected TypeError, got %r' % (what, err))
                    eq(len(sent) - n0, 0, '%s: messages sent' % what)
                    continue
                true(err is None, '%s: raised %s %s' % (what, type(err).__name__, str(err)[-200:]))
                if how == 'no reply':
                    eq(self.c.ping(), 'pong', 'ping')
                if how == 'item':
                    got = self.rec.srv['it']
                elif how == 'attribute':
                    got = self.unwrap(rp).x
                elif how == 'transfer':
                    true(type(r) is self.P, '%s: returned %r' % (what, r))
                    if not simple:
                        continue
                    got = self.unwrap(r)
                else:
                    a, k = self.R.GOT
                    got = {'keyword': lambda: k['x'], 'in list': lambda: a[0][0], 'in dict': lambda: a[0]['k'],
                           'in tuple': lambda: a[0][1]}.get(how, lambda: a[0])()
                if simple:
                    true(type(got).__name__ == type(v).__name__ and O.same(got, v), '%s: arrived as %r' % (what, got))
                else:
                    true(type(got).__name__ == 'ObjectProxy' and got._rpc_addr == srv.address, '%s: arrived as %r' % (what, got))
                    true(srv.unwrap_proxy(got) is v, '%s: proxy to another object' % what)
        eq(self.c.ping(), 'pong', 'ping')
        w.note(local, cli)


class Precedence(Base):
    """sync, timeout and return type given at three levels."""
    name = 'precedence'

    def main(self, w):
        lv = {}
        S = (None, 'sync', 'async', 'off')
        T = (None, 0.05, 1.0, 0)
        lv['client'] = (S[pick(w, 4, 'client_sync')], T[pick(w, 4, 'client_timeout')])
        lv['proxy'] = (S[pick(w, 4, 'proxy_sync')], T[pick(w, 4, 'proxy_timeout')])
        route = pick(w, 3, 'route')
        self.up(w)
        t0 = self.c._import('mct_opt')
        thing = t0.thing(_sync='sync', _timeout=5, _return_type='proxy')
        self.c['thing'] = thing
        o = self.unwrap(thing)
        if lv['client'][0]:
            self.c.default_proxy_options['sync'] = lv['client'][0]
        if lv['client'][1] is not None:
            self.c.default_proxy_options['timeout'] = lv['client'][1]
        for cs in S:
            for ct in T:
                for d in (0, 0.3):
                    p = self.c['thing']
                    if route == 1:
                        p = p.sub
                    kw = {}
                    if lv['proxy'][0]:
                        kw['sync'] = lv['proxy'][0]
                    if lv['proxy'][1] is not None:
                        kw['timeout'] = lv['proxy'][1]
                    p._set_proxy_options(**kw)
                    if route == 2:
                        p = p.sub.sub
                    ck = {}
                    if cs:
                        ck['_sync'] = cs
                    if ct is not None:
                        ck['_timeout'] = ct
                    sync = cs or lv['proxy'][0] or lv['client'][0] or 'sync'
                    tmo = next(x for x in (ct, lv['proxy'][1], lv['client'][1], 10) if x is not None)
                    what = 'call with %s, proxy options %s, client defaults %s, %g s' % (ck, lv['proxy'], lv['client'], d)
                    w.cases += 1
                    a = w.sched.now
                    try:
                        r = p(d, **ck)
                        err = None
                    except TimeoutError as e:
                        err = e
                    dt = w.sched.now - a
                    if sync == 'sync':
                        if d == tmo == 0:
                            # (there may be time for the reply, or not)
                            true(err is not None or r == [1], '%s: got %r' % (what, r))
                            true(dt < 0.02, '%s took %.3f s' % (what, dt))
                        elif d > tmo:
                            true(err is not None, '%s: returned %r, expected TimeoutError' % (what, r))
                            true(abs(dt - tmo) < 0.02, '%s: TimeoutError after %.3f s' % (what, dt))
                        else:
                            true(err is None, '%s: TimeoutError after %.3f s' % (what, dt))
                            eq(r, [1], what)
                    elif sync == 'off':
                        true(err is None and r is None, '%s: got %r %r' % (what, r, err))
                        true(dt < 0.02, '%s took %.3f s' % (what, dt))
                    else:
                        true(err is None and isinstance(r, w.tp.client.Future), '%s: got %r %r' % (what, r, err))
                        true(dt < 0.02, '%s took %.3f s' % (what, dt))
                        eq(r.result(5), [1], what)
                    eq(self.c.ping(timeout=5), 'pong', 'ping')
        w.note(lv['client'], lv['proxy'], route)


SETS = [('sync', 'async'), ('sync', 'off'), ('sync', 'sync'), ('return_type', 'proxy'), ('return_type', 'auto'),
        ('timeout', 0.05), ('defer_getattr', False), ('safe_print', False)]
DEF = {'sync': 'sync', 'return_type': 'auto', 'timeout': 10, 'defer_getattr': True, 'safe_print': True}


class Independence(Base):
    """Histories of option changes on related proxies."""

    def __init__(self, depth, nsets, **kw):
        Base.__init__(self, **kw)
        self.depth, self.nsets = depth, nsets
        self.name = 'independence-%d' % depth

    def main(self, w):
        cdef = pick(w, 3, 'client_defaults')
        first = pick(w, 2 + 2 * self.nsets, 'first')
        self.up(w)
        self.base = self.c._import('mct_opt').thing(_return_type='proxy')
        self.real = self.unwrap(self.base)
        self.c['thing'] = self.base
        self.cdef = [{}, {'sync': 'async'}, {'return_type': 'proxy', 'timeout': 0.05}][cdef]
        self.c.default_proxy_options.update(self.cdef)
        self.n = 0
        for seq in self.histories(first):
            self.run(seq)
        w.note(first, cdef, self.n)

    def histories(self, first):
        """Sequences of ('new',) ('set', i, option) ('derive', i); i refers to the proxies so far."""
        def ops(n):
            out = [('new',), ('derive', 0)]
            out += [('set', i, k) for i in range(min(n, 2)) for k in range(self.nsets)]
            if n > 2:
                out += [('set', n - 1, k) for k in range(self.nsets)] + [('derive', n - 1)]
            return out

        def rec(seq, n):
            yield seq
            if len(seq) < self.depth + 1:
                for o in ops(n):
                    if len(seq) == 1 and ops(n).index(o) != first:
                        continue
                    for s in rec(seq + [o], n + (o[0] != 'set')):
                        yield s
        start = [('new',)]
        for s in rec([('new2',)], 2):
            if len(s) > 1:
                yield s

    def run(self, seq):
        w = self.w
        ps = []          # (proxy, options in effect)
        for op in seq:
            if op[0] in ('new', 'new2'):
                for i in range(2 if op[0] == 'new2' else 1):
                    d = dict(DEF)
                    d.update(self.cdef)
                    ps.append((self.c['thing'], d))
            elif op[0] == 'set':
                k, v = SETS[op[2]]
                p, d = ps[op[1]]
                p._set_proxy_options(**{k: v})
                d[k] = v
            else:
                p, d = ps[op[1]]
                if not d['defer_getattr']:
                    return          # (an immediate lookup is a request of its own)
                ps.append((p.sub, dict(d)))
        self.n += 1
        for i, (p, d) in enumerate(ps):
            w.cases += 1
            what = 'after %s, proxy %d (%s)' % (seq[1:], i, {k: v for k, v in d.items() if DEF[k] != v})
            self.observe(p, d, what)

    def observe(self, p, d, what):
        w = self.w
        try:
            r = p(0.2 if d['timeout'] < 1 else 0)
            err = False
        except TimeoutError:
            err = True
        if d['sync'] == 'sync' and d['timeout'] < 1:
            true(err, '%s: no timeout' % what)
        else:
            true(not err, '%s: timeout' % what)
            if d['sync'] == 'off':
                true(r is None, '%s: returned a %s' % (what, type(r).__name__))
            else:
                if d['sync'] == 'async':
                    true(isinstance(r, w.tp.client.Future), '%s: returned a %s' % (what, type(r).__name__))
                    r = r.result(5)
                if d['return_type'] == 'proxy':
                    true(type(r) is self.P, '%s: returned a %s' % (what, type(r).__name__))
                else:
                    eq(r, [1], what)
        if d['defer_getattr']:
            r = p.num
            true(type(r) is self.P, '%s: attribute is not deferred: %s' % (what, type(r).__name__))
        else:
            eq(p.num, 7, '%s: attribute' % what)
        if d['sync'] == 'sync' or not d['safe_print']:
            s = None
            if d['safe_print']:
                s = str(p)
                true(s.startswith('<ObjectProxy for '), '%s: str %r' % (what, s))


class Elsewhere(Base):
    """A proxy with options is handed to a timer, which calls it from its own thread."""
    name = 'elsewhere'

    def main(self, w):
        opt = ({}, {'sync': 'off'}, {'sync': 'async'}, {'timeout': 0.05}, {'sync': 'sync', 'timeout': 5},
               {'return_type': 'proxy'})[pick(w, 6, 'options')]
        route = pick(w, 3, 'route')
        default = pick(w, 3, 'client_defaults')
        self.up(w)
        self.c['thing'] = self.c._import('mct_opt').thing(_return_type='proxy')
        real = self.rec.srv['thing']
        d = dict(DEF)
        own = [{}, {'sync': 'async'}, {'timeout': 0.05}][default]
        self.c.default_proxy_options.update(own)
        p = self.c['thing']
        if route == 0:
            p = p.sub.slow
            p._set_proxy_options(**opt)
        elif route == 1:
            p._set_proxy_options(**opt)
            p = p.sub.slow
        else:
            p = p.sub
            p._set_proxy_options(**opt)
            p = p.slow
        # (the proxy has the options that its client had when it arrived)
        d.update(own)
        d.update(opt)
        what = 'timer calling a proxy with %s, client defaults %s' % (opt, own)
        w.img.modules['threading'].excepthook = lambda a: None
        tm = w.img.import_module('teleprox.timer')
        timer = tm.Timer(p, 0.1, limit=3)
        w.cases += 1
        a = w.sched.now
        timer.start()
        while timer.running and w.sched.now < a + 5:
            w.time.sleep(0.01)
        dt = w.sched.now - a
        if d['sync'] != 'sync':
            true(0.19 < dt < 0.3, '%s: three calls took %.3f s' % (what, dt))
        elif d['timeout'] < 1:
            true(0.04 < dt < 0.15, '%s: the call did not time out: %.3f s' % (what, dt))
        else:
            true(0.75 < dt < 1, '%s: three calls took %.3f s' % (what, dt))
        w.time.sleep(1)
        eq(real.sub.calls, 1 if d['sync'] == 'sync' and d['timeout'] < 1 else 3, '%s: calls' % what)
        w.note(opt, route, default)


class Lookup(Base):
    """Immediate and deferred attribute lookup."""
    name = 'lookup'

    def main(self, w):
        srv = SETTINGS[pick(w, 3, 'server_types')]
        self.up(w, srv=srv)
        t = self.c._import('mct_opt')
        u = self.c._import('mct_opt')
        u._set_proxy_options(defer_getattr=False)
        x, y = t.thing(_return_type='proxy'), None
        y = self.c.get_obj(x, return_type='proxy')
        y._set_proxy_options(defer_getattr=False)
        real = self.unwrap(x)
        for i, n in enumerate(self.O.NAMES):
            w.cases += 1
            v = self.R.BY_NAME[n]
            setattr(real, 'a', v)
            a = x.a._get_value() if isinstance(v, self.types) else x.a._undefer()
            b = y.a
            what = '%s, %s server types' % (n, srv)
            for z in (a, b):
                if isinstance(v, self.types):
                    true(self.O.same(z, v), '%s: attribute %r' % (what, z))
                else:
                    true(type(z) is self.P and self.unwrap(z) is v, '%s: attribute %r' % (what, z))
        for n in ('nothing', '__nope__', 'calls_'):
            for f in (lambda: getattr(y, n), lambda: getattr(x, n)._undefer()):
                try:
                    f()
                except w.tp.RemoteCallException as e:
                    eq(e.type_str, 'AttributeError', 'missing attribute')
                else:
                    true(False, 'lookup of a missing attribute does not fail')
        eq(type(y.sub), self.P, 'object attribute')
        # the options of a request for the value of a deferred lookup
        for i, n in enumerate(self.O.NAMES):
            v = self.R.BY_NAME[n]
            setattr(real, 'a', v)
            for sync in ('sync', 'async', 'off'):
                for rt in ('auto', 'proxy'):
                    what = '_undefer(sync=%r, return_type=%r) with a value %s, %s server types' % (sync, rt, n, srv)
                    z = x.a._undefer(sync=sync, return_type=rt)
                    w.cases += 1
                    if sync == 'off':
                        true(z is None, '%s: returned %r' % (what, z))
                        continue
                    if sync == 'async':
                        true(isinstance(z, w.tp.client.Future), '%s: returned %r' % (what, z))
                        z = z.result(5)
                    if rt == 'auto' and isinstance(v, self.types):
                        true(self.O.same(z, v), '%s: got %r' % (what, z))
                    else:
                        true(type(z) is self.P and self.unwrap(z) is v, '%s: got %r' % (what, z))
        true(self.unwrap(y.sub.sub) is real.sub.sub, 'attribute of attribute')
        w.note(srv)


class Requests(Base):
    """sync and timeout given to each kind of request, with the server busy."""
    name = 'requests'
    KINDS = ('ping', 'import', 'delete', 'proxy_delete', 'get_obj', 'call_obj', 'transfer', 'undefer', 'get_value', 'close')

    def main(self, w):
        kind = self.KINDS[pick(w, len(self.KINDS), 'request')]
        sync = (None, 'sync', 'async', 'off')[pick(w, 4, 'sync')]
        tmo = (None, 0.2, 3.0)[pick(w, 3, 'timeout')]
        busy = (0, 0.3, 0.8, 12.0)[pick(w, 4, 'busy')]
        if kind == 'get_value' and (sync or tmo):
            return
        self.up(w)
        t = self.c._import('mct_opt')
        thing = t.thing(_return_type='proxy')
        real = self.unwrap(thing)
        kw = {}
        if sync:
            kw['sync'] = sync
        if tmo is not None:
            kw['timeout'] = tmo
        c = self.c
        f = {'ping': lambda: c.ping(**kw), 'import': lambda: c._import('mct_opt', **kw),
             'delete': lambda: c.delete(thing, **kw), 'proxy_delete': lambda: thing._delete(**kw),
             'get_obj': lambda: c.get_obj(thing.num, **kw), 'call_obj': lambda: c.call_obj(thing, (0,), **kw),
             'transfer': lambda: c.transfer(5, **kw), 'undefer': lambda: thing.num._undefer(**kw),
             'get_value': lambda: thing.num._get_value(), 'close': lambda: c.close_server(**kw)}[kind]
        ok = {'ping': lambda r: r == 'pong', 'import': lambda r: type(r) is self.P and self.unwrap(r).thing is self.R.thing,
              'delete': lambda r: r is None, 'proxy_delete': lambda r: r is None, 'get_obj': lambda r: r == real.num,
              'call_obj': lambda r: r == [1], 'transfer': lambda r: type(r) is self.P and self.unwrap(r) == 5,
              'undefer': lambda r: r == real.num, 'get_value': lambda r: r == real.num, 'close': lambda r: r is True}[kind]
        what = '%s(%s), server busy for %g s' % (kind, kw, busy)
        if busy:
            thing(busy, _sync='off')
        limit = tmo if tmo is not None else 1.0 if kind == 'close' else 10
        w.cases += 1
        a = w.sched.now
        err = r = None
        try:
            r = f()
        except TimeoutError as e:
            err = e
        dt = w.sched.now - a
        if (sync or 'sync') == 'sync':
            if busy > limit:
                true(err is not None, '%s: returned %r, expected TimeoutError' % (what, r))
                true(abs(dt - limit) < 0.02, '%s: TimeoutError after %.3f s' % (what, dt))
            else:
                true(err is None, '%s: TimeoutError after %.3f s' % (what, dt))
                true(ok(r), '%s: returned %r' % (what, r))
        else:
            true(err is None and dt < 0.02, '%s took %.3f s, %r' % (what, dt, err))
            if kind == 'proxy_delete':
                pass                # (it has no result)
            elif sync == 'off':
                true(r is None, '%s: returned %r' % (what, r))
            else:
                true(isinstance(r, w.tp.client.Future), '%s: returned %r' % (what, r))
                r = r.result(20)
                true(ok(r), '%s: result %r' % (what, r))
        if kind != 'close':
            eq(c.ping(timeout=20), 'pong', 'ping')
        w.note(kind, sync, tmo, busy)


def scenarios(tier):
    if tier == 'quick':
        return [(Results(), 0), (Arguments(), 0), (Precedence(), 0), (Lookup(), 0), (Requests(), 0), (Elsewhere(), 0), (Independence(3, 8), 0)]
    return [(Results(), 0), (Arguments(), 0), (Precedence(), 0), (Lookup(), 0), (Requests(), 0), (Elsewhere(), 0), (Independence(4, 8), 0)]
