"""C07: a proxied object lives exactly as long as its undeleted proxies."""
import gc

from .. import lines
from ..harness import Sys, pick, serve, eq, true, threads, expect

ASSUMPTIONS = [
    'two objects, the owning process, a client in the main process and one in a third process',
    'cyclic garbage is collected before an object is judged to be held',
    'a proxy may be collected at any line of client.py, proxy.py and serializer.py that its thread executes, or between '
    'the frames of a message, but not while its thread has no client for the server and is about to create one',
]
TECHNIQUE = ('exhaustive enumeration of histories of obtaining, using, copying, deriving, passing on, deleting and '
             'collecting proxies, executed by the real clients and servers and compared with a reference model after '
             'every operation; delete/obtain races under all schedules up to a deviation bound')

OPS = ('obtain', 'obtain1', 'derive', 'delete-first', 'delete-last', 'drop-first', 'drop-last', 'pass', 'qdelete',
       'qdrop', 'qauto', 'forget', 'new', 'back', 'auto', 'publish', 'item', 'copy')


class H:
    """A handle: a proxy object we keep, and the reference it stands for."""
    n = 0

    def __init__(self, proxy, ref, parent=None):
        self.proxy, self.ref, self.parent = proxy, ref, parent
        self.auto = False


class Ref:
    def __init__(self, val):
        self.val = val          # the value identifies the object
        self.ok = True


class Life(Sys):
    opts = {'fairq': False, 'max_steps': 100000}

    def __init__(self, ops, depth, first=None, **kw):
        Sys.__init__(self, **kw)
        self.ops, self.depth, self.first = ops, depth, first
        self.name = 'histories-%d-of-%d' % (depth, len(ops))

    def main(self, w):
        self.w = w
        self.rec = serve(w, 's')
        self.q = serve(w, 'q')
        self.c = w.tp.RPCClient(self.rec.addr)
        self.t = self.c._import('mct_tgt')
        self.qt = w.tp.RPCClient(self.q.addr)._import('mct_tgt')
        self.hs = []            # proxies held here
        self.qh = {}            # proxies held in q: slot -> Ref
        self.zombies = []       # dropped proxies that live on as parents
        self.held = {0: 10, 1: 20}
        self.named = set()      # values published
        self.vals = [10, 20]
        self.nextval = 11
        self.item = None
        self.hist = []
        self.allrefs = []
        self.t.create(0, 10)
        self.t.create(1, 20)
        self.hs.append(H(self.t.obtain(0), self.ref(10)))
        for i in range(self.depth):
            ops = [o for o in self.ops if self.can(o)]
            if not ops:
                break
            op = ops[pick(w, len(ops), 'op')]
            self.hist.append(op)
            self.do(op)
            self.judge()
        w.note(tuple(self.hist))

    def ref(self, val):
        r = Ref(val)
        self.allrefs.append(r)
        return r

    def can(self, op):
        if op in ('derive', 'delete-last', 'drop-last', 'pass', 'auto', 'copy'):
            return bool(self.hs)
        if op in ('back', 'publish'):
            return any(h.ref.ok and h.parent is None for h in self.hs)
        if op in ('delete-first', 'drop-first'):
            return len(self.hs) > 1
        if op in ('qdelete', 'qdrop', 'qauto'):
            return bool(self.qh)
        if op == 'obtain':
            return 0 in self.held
        if op == 'obtain1':
            return 1 in self.held
        if op == 'forget':
            return bool(self.held)
        if op == 'item':
            return bool(self.named)
        return True

    def do(self, op):
        t, hs = self.t, self.hs
        if op == 'obtain':
            hs.append(H(t.obtain(0), self.ref(self.held[0])))
        elif op == 'obtain1':
            hs.append(H(t.obtain(1), self.ref(self.held[1])))
        elif op == 'derive':
            p = hs[-1].proxy
            hs.append(H(p.get if hs[-1].parent is None else p.__self__.get, hs[-1].ref, hs[-1]))
            del p
        elif op == 'copy':
            hs.append(H(hs[-1].proxy._copy(), hs[-1].ref, hs[-1].parent))
            if hs[-1].parent is not None:
                hs[-1].parent = H(None, hs[-1].ref)
        elif op.startswith('delete'):
            self.delete(0 if op == 'delete-first' else -1)
        elif op.startswith('drop'):
            self.drop(0 if op == 'drop-first' else -1)
        elif op == 'pass':
            k = 'k%d' % len(self.hist)
            self.qt.store(k, hs[-1].proxy)
            self.qh[k] = (hs[-1].ref, hs[-1].parent is not None)
        elif op == 'qdelete':
            k = next(iter(self.qh))
            ref, attr = self.qh.pop(k)
            self.must(ref, lambda: self.qt.delete_stored(k), 'deletion by the other process')
            ref.ok = False
        elif op == 'qdrop':
            k = next(iter(self.qh))
            self.qh.pop(k)
            self.qt.drop_stored(k)
        elif op == 'qauto':
            k = next(iter(self.qh))
            ref, attr = self.qh.pop(k)
            self.qt.drop_stored(k, True)
            ref.ok = False
        elif op == 'forget':
            for k in self.held:
                t.forget(k)
            self.held.clear()
        elif op == 'new':
            v = self.nextval
            self.nextval += 1
            self.vals.append(v)
            t.create(0, v)
            self.held[0] = v
        elif op == 'back':
            h = [h for h in hs if h.ref.ok and h.parent is None][-1]
            hs.append(H(t.same(h.proxy), self.ref(h.ref.val)))
        elif op == 'auto':
            hs[-1].proxy._set_proxy_options(auto_delete=True)
            hs[-1].auto = True
        elif op == 'publish':
            h = [h for h in hs if h.ref.ok and h.parent is None][0]
            self.c['name'] = h.proxy
            self.named = {h.ref.val}
        elif op == 'item':
            hs.append(H(self.c['name'], self.ref(next(iter(self.named)))))

    def must(self, ref, f, what):
        """f works exactly if the reference is alive."""
        try:
            r = f()
        except TimeoutError as e:
            true(False, '%s hangs after %s: %s' % (what, self.hist, e))
        except Exception as e:
            true(not ref.ok, '%s fails after %s: %s' % (what, self.hist, str(e)[-200:]))
            return None
        true(ref.ok, '%s works although the reference was deleted: %s' % (what, self.hist))
        return r

    def delete(self, i):
        h = self.hs[i]
        self.must(h.ref, lambda: h.proxy._delete(), 'deletion')
        h.ref.ok = False

    def drop(self, i):
        h = self.hs.pop(i)
        h.proxy = None
        self.zombies.append(h)
        self.collect()

    def collect(self):
        """Which dropped proxies are gone?  A proxy lives while one derived from it does."""
        again = True
        while again:
            again = False
            for z in list(self.zombies):
                if not any(h.parent is z for h in self.hs + self.zombies):
                    self.zombies.remove(z)
                    again = True
                    if z.auto:
                        z.ref.ok = False

    def judge(self):
        # (the server is told about collected proxies, but nobody waits for it)
        self.w.sched.sleep(0.01, 'harness-wait')
        for h in self.hs:
            f = h.proxy if h.parent is not None else h.proxy.get
            r = self.must(h.ref, f, 'use of %s proxy' % ('an attribute' if h.parent else 'a'))
            del f
            if r is not None:
                eq(r, h.ref.val, 'object that a proxy denotes after %s' % self.hist)
        for k, (ref, attr) in self.qh.items():
            if attr:
                r = self.must(ref, lambda: self.qt.STATE['k' + k[1:]](), 'use by the other process')
            else:
                r = self.must(ref, lambda: self.qt.use_stored(k), 'use by the other process')
            if r is not None:
                eq(r, ref.val, 'object that a proxy denotes in another process after %s' % self.hist)
        # (references nobody holds are never deleted: their objects live on)
        for v in self.vals:
            want = v in self.held.values() or v in self.named or any(r.ok and r.val == v for r in self.allrefs)
            have = self.rec.tgt.alive(v)
            if have and not want:
                gc.collect()
                have = self.rec.tgt.alive(v)
            true(have == want, 'object %d is %s after %s' % (
                v, 'kept although all its references were deleted' if have else
                'gone although references to it remain', self.hist))


class Restart(Sys):
    """Proxies of a server that closed, when another one has its address."""

    name = 'restart'

    def main(self, w):
        same = pick(w, 2, 'same process')
        n = pick(w, 3, 'objects before')
        addr = 'tcp://127.0.0.1:6000'
        rec = serve(w, 's', address=addr)
        q = serve(w, 'q')
        c = w.tp.RPCClient(addr)
        t = c._import('mct_tgt')
        qt = w.tp.RPCClient(q.addr)._import('mct_tgt')
        t.create(0, 10)
        for i in range(n):
            t.create(5 + i, 30 + i)
            t.obtain(5 + i)
        qt.store('p', t.obtain(0))
        p = t.obtain(0)
        if pick(w, 2, 'used there before'):
            eq(qt.use_stored('p'), 10, 'use')
        c.close_server()
        w.sched.sleep(1.0, 'harness-wait')
        if same:
            def again():
                rec.srv2 = rec.tp.RPCServer(address=addr)
                rec.srv2.run_forever()
            rec.img.modules['threading'].Thread(target=again, daemon=True).start()
            w.sched.sleep(0.1, 'harness-wait')
        else:
            serve(w, 's2', address=addr)
        t2 = w.tp.RPCClient(addr)._import('mct_tgt')
        keep = []
        for i in range(4):
            t2.create(i, 50 + i)
            keep.append(t2.obtain(i))
        for f, what in ((lambda: qt.use_stored('p'), 'in another process'), (lambda: p.get(), 'here')):
            try:
                r = f()
            except TimeoutError:
                true(False, 'use of a proxy of a closed server %s hangs' % what)
            except Exception:
                continue
            true(False, 'a proxy of a closed server denotes an object of its successor %s: %r' % (what, r))
        for f in (lambda: qt.delete_stored('p'), lambda: p._delete()):
            try:
                f()
            except Exception:
                pass
        eq([k.get() for k in keep], [50, 51, 52, 53], 'objects of the new server')


class Reuse(Sys):
    """The object is gone, another one has its address."""

    name = 'reuse'

    def main(self, w):
        rec = serve(w, 's')
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        refs = 1 + pick(w, 3, 'references')
        gen = 1 + pick(w, 2, 'generations')
        how = ('delete', 'collect', 'method')[pick(w, 3, 'how')]
        first = pick(w, 2, 'let go first')
        old = []
        addr = t.create_at('k', 0, None)
        v = 0
        hist = '%d references, %s, let go %s' % (refs, how, 'before' if first else 'after')
        for g in range(gen):
            ps = [t.obtain('k') for i in range(refs)]
            ms = [p.get for p in ps]
            for p in ps:
                for q, m in old:
                    what = '%s: a proxy of an earlier object and one of its successor at the same address' % hist
                    try:
                        same = bool(q == p) or bool(p == q)
                    except Exception:
                        same = False
                    true(not same, what + ' are equal')
                    true(len({q, p}) == 2 if hash(q) != hash(p) else True, what + ' are one in a set')
                eq(p.get(), v, hist + ': value')
            for q, m in old:
                for f in (q.get, m, lambda: t.same(q), lambda: q._get_value()):
                    try:
                        r = f()
                    except Exception:
                        continue
                    true(False, '%s: a deleted proxy gives %r' % (hist, r))
            if first:
                t.forget('k')
            for p, m in zip(ps, ms):
                if how == 'collect':
                    x = p._copy()
                    p._set_proxy_options(auto_delete=True)
                else:
                    p._delete()
                    old.append((p, m))
            if how == 'collect':
                del p, m, ps, ms, x
                gc.collect()
                w.sched.sleep(0.02, 'harness-wait')
            t.forget('k')
            gc.collect()
            true(not rec.tgt.alive(v), hist + ': the object is kept')
            v += 1
            got = t.create_at('k', v, addr)
            w.note(got == addr)
        p = t.obtain('k')
        eq(p.get(), v, hist)
        for q, m in old:
            try:
                same = bool(q == p) or bool(p == q)
            except Exception:
                same = False
            true(not same, hist + ': a deleted proxy equals one of the successor of its object')


class Race(Sys):
    """Two clients obtain and delete references of one object at the same time."""
    opts = {'delays': (0.02,)}

    def __init__(self, mode, **kw):
        Sys.__init__(self, **kw)
        self.mode = mode
        self.name = 'race-' + mode

    def main(self, w):
        rec = serve(w, 's', mode=self.mode)
        t = w.tp.RPCClient(rec.addr)._import('mct_tgt')
        t.create(0, 10)
        keep = []

        def a(sync):
            t = w.tp.RPCClient(rec.addr)._import('mct_tgt')
            p = t.obtain(0)
            sync()
            p._delete()
            p = t.same(keep[0]._copy()) if keep else None
            if p is not None:
                eq(p.get(), 10, 'use')
                p._delete()

        def b(sync):
            t = w.tp.RPCClient(rec.addr)._import('mct_tgt')
            p = t.obtain(0)
            sync()
            p2 = t.same(p)
            p._set_proxy_options(auto_delete=True)
            p = None
            eq(p2.get(), 10, 'use')
            keep.append(p2)
            t.forget(0)
        threads(w, [a, b], 20)
        gc.collect()
        true(rec.tgt.alive(10), 'object gone although a reference remains')
        p = keep[0]._copy()
        eq(p.get(), 10, 'use in another thread')
        p._delete()
        gc.collect()
        true(not rec.tgt.alive(10), 'object kept although all its references were deleted')


class Collected(Sys):
    """A proxy with automatic deletion is collected while its thread uses the client: at every line of it."""
    opts = {'delays': (), 'fairq': False}
    lines = ('teleprox.client', 'teleprox.proxy', 'teleprox.serializer')
    OPS = ('call', 'slow', 'async', 'off', 'timeout', 'done', 'error', 'proxy', 'fetch', 'delete', 'ping', 'set',
           'connect', 'close')

    def __init__(self, op, n=1, few=False, **kw):
        Sys.__init__(self, **kw)
        self.op, self.n = op, n
        if few:
            self.lines = self.lines[:2]
        self.name = 'collected-%s%s' % (op, '' if n == 1 else '-%d' % n)

    def main(self, w):
        rec = serve(w, 's')
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        self.s2 = serve(w, 's2') if self.op == 'connect' else None
        used = pick(w, 2, 'used before')
        t.create(0, 10)
        cell = []
        for i in range(self.n):
            p = t.obtain(0)
            p._set_proxy_options(auto_delete=True)
            if used:
                p._get_value()._delete()        # (this proxy itself, not one derived from it)
            cell.append(p)
        p = None
        other = t.make(5)
        t.forget(0)
        true(rec.tgt.alive(10), 'object gone although references remain')

        me = w.sched.current

        def hook(code, line):
            if cell and w.sched.current is me and (code is None or code.co_name != '__del__') and pick(w, 2, 'collect'):
                cell.pop()
        lines.hook = hook
        t0 = w.time.time()
        getattr(self, self.op)(w, c, t, other)
        took = w.time.time() - t0
        lines.hook = None
        true(took < 1.5, 'the call took %g s' % took)
        del cell[:]
        if self.op == 'close':
            c = w.tp.RPCClient.get_client(rec.addr)
            t = c._import('mct_tgt')
            other = t.make(5)
        eq(t.mark(3), 3, 'later call')
        eq(c.ping(), 'pong', 'later request')
        eq(other.get(), 5, 'other object')
        true(not w.net.faults, '%s' % w.net.faults[:1])
        true(not rec.img.unhandled, 'reported by the server: %r' % rec.img.unhandled[:1])
        if self.op != 'close':
            true(not rec.tgt.alive(10), 'object kept although all its proxies were collected')

    def connect(self, w, c, t, o):
        c2 = w.tp.RPCClient(self.s2.addr)
        eq(c2.ping(), 'pong', 'request to the other server')
        true(w.tp.RPCClient.get_client(self.s2.addr) is c2, 'another client for the same address')

    def close(self, w, c, t, o):
        c.close()

    def call(self, w, c, t, o):
        eq(t.echo(1), ('r', 1), 'call')

    def slow(self, w, c, t, o):
        eq(t.slow(1, 0.5, _timeout=1.0), ('r', 1), 'call')

    def async_(self, w, c, t, o):
        fs = [t.slow(i, 0.1, _sync='async') for i in range(2)]
        eq(fs[1].result(timeout=1.0), ('r', 1), 'second call')
        eq(fs[0].result(timeout=1.0), ('r', 0), 'first call')

    def off(self, w, c, t, o):
        eq(t.mark(1, _sync='off'), None, 'call without reply')
        eq(t.mark(2), 2, 'call')
        eq([x for x in w.images[1].modules['mct_tgt'].LOG], [1, 2], 'executed')

    def timeout(self, w, c, t, o):
        expect(w, TimeoutError, lambda: t.slow(1, 0.6, _timeout=0.2), 'call that takes too long')

    def done(self, w, c, t, o):
        f = t.slow(1, 0.2, _sync='async')
        n = 0
        while not f.done():
            n += 1
            true(n < 20, 'done() is not reported')
            w.time.sleep(0.1)
        eq(f.result(), ('r', 1), 'result')

    def error(self, w, c, t, o):
        e = expect(w, w.tp.RemoteCallException, lambda: t.fail(1), 'failing call')
        eq(e.type_str, 'ValueError', 'type of the error')

    def proxy(self, w, c, t, o):
        p = t.make(7)
        eq(p.get(), 7, 'call of the new object')

    def fetch(self, w, c, t, o):
        eq(o.v._get_value(), 5, 'value')

    def delete(self, w, c, t, o):
        p = t.make(7)
        p._delete()
        expect(w, w.tp.RemoteCallException, lambda: p.get(), 'use of a deleted proxy')

    def ping(self, w, c, t, o):
        eq(c.ping(), 'pong', 'ping')

    def set(self, w, c, t, o):
        o.v = 6
        eq(o.get(), 6, 'value')
        o.v = 5


setattr(Collected, 'async', Collected.async_)


class Elsewhere(Sys):
    """A proxy with automatic deletion is collected in a thread that did not use it."""
    opts = {'delays': (0.02,)}

    def __init__(self, busy, own=False, **kw):
        Sys.__init__(self, **kw)
        self.busy, self.own = busy, own
        self.name = 'elsewhere-%s%s' % (busy, '-own' if own else '')

    def main(self, w):
        rec = serve(w, 's')
        t = w.tp.RPCClient(rec.addr)._import('mct_tgt')
        t.create(0, 10)
        cell = []

        def a(sync):
            t = w.tp.RPCClient(rec.addr)._import('mct_tgt')
            p = t.obtain(0)
            p._set_proxy_options(auto_delete=True)
            if self.own:
                p._get_value()._delete()
            eq(p.get(), 10, 'use')
            cell.append(p)
            p = None
            t.forget(0)
            sync()
            if self.busy == 'waits':
                eq(t.slow(1, 0.3, _timeout=1.0), ('r', 1), 'call')
            elif self.busy == 'calls':
                eq(t.mark(1), 1, 'call')
                f = t.mark(2, _sync='async')
                eq(t.mark(3), 3, 'call')
                eq(f.result(timeout=1.0), 2, 'call')
            elif self.busy == 'ended':
                return
            w.sched.sleep(0.5, 'harness-wait')
            eq(t.mark(5), 5, 'later call')

        def b(sync):
            sync()
            if self.busy == 'ended':
                w.sched.sleep(0.5, 'harness-wait')
            elif self.busy == 'waits':
                w.sched.sleep(0.1, 'harness-wait')
            cell.pop()
        threads(w, [a, b], 20)
        w.sched.sleep(0.5, 'harness-wait')
        true(not w.net.faults, '%s' % w.net.faults[:1])
        true(not rec.img.unhandled, 'reported by the server: %r' % rec.img.unhandled[:1])
        gc.collect()
        true(not rec.tgt.alive(10), 'object kept although all its proxies were collected')


def scenarios(tier):
    core = ('obtain', 'derive', 'delete-last', 'drop-first', 'drop-last', 'pass', 'qdelete', 'forget', 'new', 'back',
            'auto')
    more = [(Elsewhere(b, own), 1) for b in ('waits', 'calls', 'idle', 'ended') for own in (False, True)]
    if tier == 'quick':
        more += [(Collected(op, few=True), 0) for op in ('async', 'off', 'timeout', 'connect')]
        few = ('derive', 'delete-last', 'drop-first', 'drop-last', 'pass', 'qauto', 'forget', 'back', 'auto')
        return [(Restart(), 0), (Reuse(), 0), (Race('forever'), 1)] + more + [(Life(OPS, 3), 0), (Life(few, 4), 0)]
    more += [(Collected(op), 0) for op in Collected.OPS] + [(Collected('ping', 2, few=True), 0)]
    return [(Restart(), 0), (Reuse(), 0), (Race('forever'), 2), (Race('qt'), 2)] + more + [(Life(OPS, 4), 0), (Life(core, 5), 0)]
