"""C23: shared arrays share their contents and are freed only by their owner."""
import itertools

import numpy as np

from ..harness import Sys, eq, pick, serve, true

ASSUMPTIONS = [
    'shared memory blocks are simulated (one buffer per name, as on Linux); the resource tracker of Python is not',
    'a block that was released stays usable for the processes that have it already',
]
TECHNIQUE = ('exhaustive enumeration of shapes x dtypes x memory layouts x serializers, and of histories of creating, '
             'copying, sending, writing, cleaning up and exiting over two processes, executed by the real code and '
             'compared with a reference model of arrays and blocks after every operation')

DTYPES = ('?', 'i1', '<i2', '>i4', 'u8', 'f2', '<f8', '>f8', 'c16', 'S3', 'U2', 'M8[s]', 'm8[ms]', 'V3',
          [('a', '<i2'), ('b', 'f8')], np.dtype([('a', 'i1'), ('b', 'f8')], align=True), [('s', 'i2', (2,))], 'g')
SHAPES = [s for r in range(4) for s in itertools.product((0, 1, 2, 3), repeat=r)]
LAYOUTS = ('C', 'F', 'step', 'reversed', 'transposed', 'offset', 'readonly', 'broadcast')


def fill(shape, dtype):
    """An array with distinct contents."""
    dt = np.dtype(dtype)
    n = int(np.prod(shape, dtype=int))
    raw = bytes((i * 37 + 11) % 64 + 33 for i in range(n * dt.itemsize))
    if dt.kind == 'U':
        a = np.array(['%x\xe9' % (i % 16) for i in range(n)], dtype=dt)
    elif dt.kind == 'b':
        a = np.array([i % 2 == 0 for i in range(n)], dtype=dt)
    elif dt.kind == 'f' and dt.itemsize > 8:
        a = np.array([i + 0.25 for i in range(n)], dtype=dt)
    else:
        a = np.frombuffer(raw, dtype=dt) if n else np.zeros(0, dt)
    return a.reshape(shape).copy()


def lay(a, layout):
    """The same contents in another memory layout; None if there is no such thing."""
    if layout == 'C':
        return a
    if layout == 'F':
        return np.asfortranarray(a) if a.ndim > 1 else None
    if layout == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if a.ndim == 0:
        return None
    if layout == 'step':
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)[tuple(slice(None, None, 2) for s in a.shape)]
        b[...] = a
        return b
    if layout == 'reversed':
        b = np.zeros(a.shape, a.dtype)[tuple(slice(None, None, -1) for s in a.shape)]
        b[...] = a
        return b
    if layout == 'transposed':
        if a.ndim < 2:
            return None
        b = np.zeros(a.shape[::-1], a.dtype).T
        b[...] = a
        return b
    if layout == 'offset':
        b = np.zeros(tuple(s + 1 for s in a.shape), a.dtype)[tuple(slice(1, None) for s in a.shape)]
        b[...] = a
        return b
    if layout == 'broadcast':
        if a.shape[0] == 0:
            return None
        return np.broadcast_to(a[:1], a.shape)


def same(got, want, what):
    eq(tuple(got.shape), tuple(want.shape), what + ': shape')
    eq(str(got.dtype), str(want.dtype), what + ': dtype')
    true(got.tobytes() == want.tobytes() or repr(got.tolist()) == repr(want.tolist()), '%s: contents %r, expected %r' % (what, got, want))


class Local(Sys):
    """All shapes, dtypes and layouts within one process; nothing remains."""
    name = 'arrays'
    opts = {'watchdog': 300.0}

    def main(self, w):
        dt = np.dtype(DTYPES[pick(w, len(DTYPES), 'dtype')])
        rank = pick(w, 4, 'rank')
        sh = w.img.import_module('teleprox.shmem')
        import pickle
        A = sh.SharedNDArray
        blocks = w.shm
        n = 0
        for shape in SHAPES:
            if len(shape) != rank:
                continue
            src = fill(shape, dt)
            for form in (shape, list(shape), shape[0] if len(shape) == 1 else None):
                if form is None:
                    continue
                what = 'zeros(%r, %s)' % (form, dt)
                z = A.zeros(form, DTYPES[[np.dtype(d) for d in DTYPES].index(dt)])
                same(z.data, np.zeros(shape, dt), what)
                n += 1
            for layout in LAYOUTS:
                a = lay(src.copy(), layout)
                if a is None:
                    continue
                what = 'copy of %s %s (%s)' % (dt, shape, layout)
                want = a.copy()
                before = set(blocks)
                s = A.copy(a)
                eq(len(set(blocks) - before), 1, what + ': blocks created')
                name = (set(blocks) - before).pop()
                same(s.data, want, what)
                # independent of the source
                if a.size and a.flags.writeable:
                    a[...] = np.zeros((), dt)
                    same(s.data, want, what + ', source changed')
                # attached once more
                t = self.attach(A, s)
                same(t.data, want, what + ', sent')
                # writes are seen on both sides
                if want.size:
                    t.data[...] = np.zeros((), dt)
                    same(s.data, np.zeros(shape, dt), what + ', written by the receiver')
                    s.data[...] = want
                    same(t.data, want, what + ', written by the sender')
                # a view of it, sent
                for vname, view in (('transposed', s.data.T), ('reversed', s.data[tuple(slice(None, None, -1) for x in shape) + (Ellipsis,)]),
                                    ('tail', s.data[tuple(slice(1, None) for x in shape) + (Ellipsis,)])):
                    v = A(s.shmem, view)
                    u = self.attach(A, v)
                    same(u.data, view, '%s, view (%s)' % (what, vname))
                    if view.size:
                        u.data[...] = np.zeros((), dt)
                        same(view, np.zeros(view.shape, dt), '%s, view (%s) written' % (what, vname))
                        s.data[...] = want
                n += 1
                s = t = u = v = view = None
            sh.close_all()
            eq(len(blocks), 0, 'blocks left after clean-up (%s, %s)' % (dt, shape))
            sh.close_all()
        w.cases += n
        w.note(str(dt), rank, n)

    def attach(self, A, s):
        f, args = s.__reduce__()[:2]
        blk = args[0]
        g, a = blk.__reduce__()[:2]
        return f(*((g(*a),) + tuple(args[1:])))


class Failing(Sys):
    """Creation that fails leaves nothing behind."""
    name = 'failing'

    def main(self, w):
        sh = w.img.import_module('teleprox.shmem')
        A = sh.SharedNDArray
        good = A.copy(np.arange(3))
        before = dict(w.shm)
        kind = pick(w, 11, 'kind')
        close = bool(pick(w, 2, 'close'))

        class Duck:
            # (like a data set of a file that can't be read)
            shape, size, dtype = (2,), 2, np.dtype('f8')

            def __init__(self, exc):
                self.exc = exc

            def __array__(self, *args, **kwds):
                raise self.exc

            def __len__(self):
                return 2

            def __getitem__(self, i):
                raise self.exc
        f = (lambda: A.copy(np.array([object(), 1], dtype=object), close=close),
             lambda: A.zeros((2,), object, close=close),
             lambda: A.zeros((-1, 2), 'f8', close=close),
             lambda: A.zeros((2, 2), 'no such type', close=close),
             lambda: A.zeros('ab', 'f8', close=close),
             lambda: A.copy(np.array([(1, None)], dtype=[('a', 'i4'), ('o', 'O')]), close=close),
             lambda: A.copy(np.zeros(3), close=close),
             lambda: A.zeros((2 ** 30, 2 ** 30, 2 ** 30), 'f8', close=close),
             lambda: A.copy('not an array', close=close),
             lambda: A.copy(Duck(OSError('unreadable')), close=close),
             lambda: A.copy(Duck(KeyboardInterrupt()), close=close))[kind]
        if kind == 6:
            w.shm_fail = True
        try:
            f()
            true(False, 'kind %d: no error' % kind)
        except BaseException as e:
            if type(e).__name__ in ('Violation', 'HarnessError', 'Killed'):
                raise
        w.shm_fail = False
        eq(sorted(w.shm), sorted(before), 'blocks after a failure (%d)' % kind)
        sh.close_all()
        eq(sorted(w.shm), [], 'blocks after clean-up (%d)' % kind)
        same(good.data, np.arange(3), 'array that was there before')
        w.cases += 1


class Sent(Sys):
    """Arrays sent to another process and back."""

    def __init__(self, ser, dtypes, shapes, **kw):
        Sys.__init__(self, **kw)
        self.ser, self.dtypes, self.shapes = ser, dtypes, shapes
        self.name = 'sent-%s' % ser
        self.opts = {'watchdog': 300.0, 'max_steps': 100000, 'fairq': False}

    def main(self, w):
        dt = np.dtype(self.dtypes[pick(w, len(self.dtypes), 'dtype')])
        rec = serve(w, 'q')
        sh = w.img.import_module('teleprox.shmem')
        c = w.tp.RPCClient(rec.addr, serializer=self.ser)
        t = c._import('mct_tgt')
        n = 0
        for shape in self.shapes:
            src = fill(shape, dt)
            for layout in ('C', 'F', 'step'):
                a = lay(src, layout)
                if a is None:
                    continue
                what = '%s %s (%s) sent with %s' % (dt, shape, layout, self.ser)
                s = sh.SharedNDArray.copy(a)
                r = t.shm_look(s)
                eq(list(r[0]), list(shape), what + ': shape')
                eq(r[1], str(dt), what + ': dtype')
                eq(r[2], repr(a.tolist()), what + ': contents')
                t.shm_put('a', s)
                back = t.shm_get('a')
                same(back.data, a, what + ' and back')
                if a.size:
                    raw = np.zeros(shape, dt).tobytes()
                    t.shm_set(s, raw)
                    same(s.data, np.zeros(shape, dt), what + ', written there')
                    s.data[...] = a
                    eq(t.shm_look(back)[2], repr(a.tolist()), what + ', written here')
                v = sh.SharedNDArray(s.shmem, s.data.T)
                eq(t.shm_look(v)[2], repr(s.data.T.tolist()), what + ', view')
                n += 1
        names = set(w.shm)
        t.shm_cleanup()
        eq(set(w.shm), names, 'blocks after clean-up by the receiver (%s)' % dt)
        back = s = v = None
        sh.close_all()
        eq(sorted(w.shm), [], 'blocks after clean-up by the owner (%s)' % dt)
        w.cases += n
        w.note(str(dt), n)


OPS = ('new', 'keep', 'copy', 'send', 'back', 'qnew', 'fetch', 'write', 'qwrite', 'clean', 'qclean', 'drop', 'qcopy', 'qexit', 'lost')


class History(Sys):
    opts = {'watchdog': 60.0, 'max_steps': 100000, 'fairq': False}

    def __init__(self, depth, ops=OPS, **kw):
        Sys.__init__(self, **kw)
        self.depth, self.ops = depth, ops
        self.name = 'histories-%d-of-%d' % (depth, len(ops))

    def main(self, w):
        sh = w.img.import_module('teleprox.shmem')
        A = sh.SharedNDArray
        rec = serve(w, 'q')
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        here, there = [], []            # (array or key, block)
        blocks = {}                     # block -> [contents, exists, owner to free it or None]
        val = [100]
        hist = []

        def new(owner, close, contents):
            b = len(blocks)
            blocks[b] = [list(contents), True, owner if close else None, None]
            return b

        def names(before):
            d = set(w.shm) - before
            eq(len(d), 1, '%s: blocks created' % hist)
            return d.pop()
        gone = False
        for step in range(self.depth):
            ops = [o for o in self.ops if self.can(o, here, there, blocks, gone)]
            op = ops[pick(w, len(ops), 'op')]
            hist.append(op)
            before = set(w.shm)
            val[0] += 1
            k = 'k%d' % step
            if op in ('new', 'keep'):
                v = [val[0], 1, 2]
                b = new('p', op == 'new', v)
                here.append((A.copy(np.array(v), close=op == 'new'), b))
                blocks[b][3] = names(before)
            elif op == 'copy':
                sa, b0 = here[0]
                b = new('p', True, blocks[b0][0])
                here.append((A.copy(sa.data), b))
                blocks[b][3] = names(before)
            elif op == 'send':
                sa, b = here[-1]
                t.shm_put(k, sa)
                there.append((k, b))
            elif op == 'back':
                key, b = there[-1]
                here.append((t.shm_get(key), b))
            elif op == 'qnew':
                v = [val[0], 7]
                b = new('q', True, v)
                blocks[b][3] = t.shm_new(k, v, True)
                there.append((k, b))
            elif op == 'fetch':
                key, b = there[0]
                here.append((t.shm_get(key), b))
            elif op == 'qcopy':
                key, b0 = there[0]
                b = new('q', True, blocks[b0][0])
                blocks[b][3] = t.shm_again(key, k)
                there.append((k, b))
            elif op == 'write':
                sa, b = here[-1]
                sa.data[0] = val[0]
                blocks[b][0][0] = val[0]
            elif op == 'qwrite':
                key, b = there[0]
                t.shm_write(key, 1, val[0])
                blocks[b][0][1] = val[0]
            elif op == 'clean':
                sh.close_all()
                for v in blocks.values():
                    if v[2] == 'p':
                        v[1] = False
            elif op == 'qclean':
                t.shm_cleanup()
                for v in blocks.values():
                    if v[2] == 'q':
                        v[1] = False
            elif op == 'lost':
                # (somebody removes the block)
                sa, b = here[0]
                sa.shmem.unlink()
                blocks[b][1] = False
            elif op == 'drop':
                here.pop(0)
            elif op == 'qexit':
                t = None
                gone = True
                there = []
                c.close_server()
                rec.leave = True
                w.sched.block(lambda: rec.img.state == 'dead', 10, 'harness-wait')
                eq(rec.img.unhandled, [], '%s: exit of the other process' % hist)
                for v in blocks.values():
                    if v[2] == 'q':
                        v[1] = False
            # every array has its contents, exactly the right blocks exist
            for sa, b in here:
                eq(sa.data.tolist(), blocks[b][0], '%s: contents here' % hist)
            for key, b in there:
                eq(t.shm_read(key), blocks[b][0], '%s: contents there' % hist)
            want = sorted(v[3] for v in blocks.values() if v[1])
            eq(sorted(w.shm), want, '%s: existing blocks' % hist)
            w.cases += 1
        w.note(tuple(hist))

    def can(self, op, here, there, blocks, gone):
        if gone and op in ('send', 'back', 'qnew', 'fetch', 'qwrite', 'qclean', 'qcopy', 'qexit'):
            return False
        if op in ('copy', 'write', 'drop'):
            return bool(here)
        if op == 'lost':
            return bool(here) and blocks[here[0][1]][1]
        if op == 'send':
            return bool(here) and blocks[here[-1][1]][1]
        if op == 'back':
            return bool(there) and blocks[there[-1][1]][1]
        if op == 'fetch':
            return bool(there) and blocks[there[0][1]][1]
        if op in ('qwrite', 'qcopy'):
            return bool(there)
        return True


class Exit(Sys):
    """What the exit of a process leaves: what it has received, and what it was to keep."""
    name = 'exit'

    def main(self, w):
        rec = serve(w, 'q', leave=True)
        sh = w.img.import_module('teleprox.shmem')
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        how = pick(w, 3, 'how')
        held = pick(w, 2, 'held')
        s = sh.SharedNDArray.copy(np.arange(5))
        mine = set(w.shm)
        t.shm_put('x', s)
        own = t.shm_new('y', [1, 2], True)
        kept = t.shm_new('z', [1, 2], False)
        got = t.shm_get('y') if held else None
        eq(len(w.shm), 3, 'blocks')
        if how == 0:
            c.close_server()
        elif how == 1:
            t.shm_cleanup()
            c.close_server()
        else:
            t.shm_cleanup()
        w.sched.sleep(2.0, 'harness-wait')
        what = 'the other process ' + ('exited', 'cleaned up and exited', 'cleaned up')[how]
        true(how == 2 or rec.img.state == 'dead', what)
        eq(set(w.shm), mine | {kept}, what + ': blocks')
        eq(rec.img.unhandled, [], what)
        eq(s.data.tolist(), list(range(5)), what + ': contents')
        if held:
            eq(got.data.tolist(), [1, 2], what + ': contents')
        sh.close_all()
        eq(set(w.shm), {kept}, 'both cleaned up: blocks')
        w.cases += 1


def scenarios(tier):
    q = tier == 'quick'
    L = [(Local(), 0), (Failing(), 0), (Exit(), 0)]
    shapes = [s for s in SHAPES if len(s) < 2 or s in ((2, 3), (3, 0), (2, 1, 3))] if q else SHAPES
    L += [(Sent('msgpack', DTYPES, shapes), 0), (Sent('json', DTYPES, shapes), 0)]
    L += [(History(4 if q else 5), 0)]
    L += [(History(5 if q else 7, ('new', 'send', 'fetch', 'write', 'clean', 'qclean')), 0)]
    return L
