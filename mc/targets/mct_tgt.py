"""Objects the harnesses use on the serving side of a connection."""
import datetime
import time
import threading

import numpy as np

LOG = []
TH = []
STATE = {}


def mark(x):
    LOG.append(x)
    return x


def echo(x):
    LOG.append(x)
    TH.append(threading.current_thread().ident)
    return ('r', x)


def ret(x):
    return x


def add(*args, **kwds):
    return [list(args), kwds]


def slow(x, d):
    LOG.append(x)
    TH.append(threading.current_thread().ident)
    time.sleep(d)
    return ('r', x)


def fail(x):
    LOG.append(x)
    raise ValueError('bad-%s' % x)


class Obj:
    count = 0

    def __init__(self, v=0):
        Obj.count += 1
        self.v = v
        self.calls = []

    def get(self):
        return self.v

    def set(self, v):
        self.v = v

    def call(self, *a, **k):
        self.calls.append((a, k))
        return len(self.calls)

    def me(self):
        return self

    def count_me(self):
        self.calls.append(None)
        return len(self.calls)

    def __del__(self):
        Obj.count -= 1


def make(v=0):
    return Obj(v)


def step(n, d=0.01):
    """Takes time, and shows where it begins and ends."""
    LOG.append(('b', n))
    TH.append(threading.current_thread().ident)
    time.sleep(d)
    LOG.append(('e', n))
    return ('r', n)


def step_fail(n, x=None):
    step(n)
    raise TypeError('step_fail() takes 0 positional arguments but 1 was given')


def step_odd(n):
    step(n)
    return 'a\udcff'


class Spy:
    """Every access shows where it begins and ends."""

    def __getattr__(self, k):
        if k[:1] != 'p':
            raise AttributeError(k)
        return step(int(k[1:]))

    def __setattr__(self, k, v):
        step(int(k[1:]))

    def __getitem__(self, n):
        return step(n)

    def __setitem__(self, n, v):
        step(n)


SPY = Spy()


class Stepper:
    def step(self, n):
        return step(n)


def through(n, f):
    LOG.append(('b', n))
    TH.append(threading.current_thread().ident)
    r = f(n, 0.05)
    LOG.append(('e', n))
    return r


def through_fail(n, f):
    f(n, 0.05)
    raise ValueError('bad-%d' % n)


def through_d(n, f, d):
    return f(n, d, _timeout=9)


SEVEN = 7


class OddBase(BaseException):
    pass


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __str__


class NoPickle:
    def __reduce__(self):
        raise TypeError('not to be sent')

    def __reduce_ex__(self, p):
        raise TypeError('not to be sent')


class NoPickleInt(int):
    __reduce_ex__ = NoPickle.__reduce_ex__


def _rec():
    return _rec()


def trouble(kind):
    """Raises all kinds of things."""
    if kind == 'value':
        raise ValueError('bad-1')
    if kind == 'exit':
        raise SystemExit(3)
    if kind == 'kbd':
        raise KeyboardInterrupt()
    if kind == 'stop':
        raise StopIteration()
    if kind == 'gen':
        raise GeneratorExit()
    if kind == 'base':
        raise OddBase()
    if kind == 'badstr':
        raise BadStr()
    if kind == 'surr':
        raise ValueError('text \udcff that cannot be encoded')
    if kind == 'chain':
        try:
            raise ValueError('inner-cause')
        except ValueError as e:
            raise KeyError('outer') from e
    if kind == 'rec':
        return _rec()
    if kind == 'os':
        raise FileNotFoundError(2, 'No such file', 'x')
    if kind == 'assert':
        assert False
    if kind == 'syntax':
        compile('a b', 'x', 'exec')
    if kind == 'timeout':
        raise TimeoutError('inside')
    if kind == 'zmq':
        import zmq
        raise zmq.error.Again()
    if kind == 'runtime':
        raise RuntimeError('Cannot receive')
    if kind == 'group':
        raise ExceptionGroup('g', [ValueError(1), KeyError(2)])
    if kind == 'nomsg':
        raise ValueError
    if kind == 'attr':
        return None.x
    if kind == 'inner class':
        class Inner(LookupError):
            pass
        raise Inner('of a function')
    if kind == 'badlen':
        return len(3)
    if kind == 'setattr':
        (3).x = 1
    raise AssertionError(kind)


class Stubborn(datetime.date):
    """Cannot be written down."""
    what = ValueError

    def isoformat(self):
        raise self.what('not to be sent')


class Bomb(np.complex128):
    """Cannot be read by the receiver."""

    def __reduce__(self):
        return eval, ("(_ for _ in ()).throw(%s('not to be read'))" % ('ValueError', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit')[int(self.real)],)


def stubborn(what):
    x = Stubborn(2020, 1, 2)
    x.what = what
    return x


def odd(kind):
    """Results that cannot be sent."""
    if kind.startswith('stubborn'):
        return stubborn({'value': ValueError, 'exit': SystemExit, 'kbd': KeyboardInterrupt, 'own': OddBase}[kind[9:]])
    if kind == 'bigint':
        return [2 ** 70]
    if kind == 'surrogate':
        return 'a\udcff'
    if kind == 'cyclic':
        x = []
        x.append(x)
        return x
    if kind == 'nopickle':
        return [NoPickleInt(3)]


def hop(path, n=1, wait='sync'):
    """Call the next one on the path (n times); returns the number of calls made in all."""
    LOG.append(len(path))
    TH.append(threading.current_thread().ident)
    if not path:
        return 1
    total = 1
    for i in range(n):
        if wait == 'async':
            total += path[0](path[1:], n, wait, _sync='async').result(8)
        else:
            total += path[0](path[1:], n, wait)
    return total


def deep(f, g, n):
    """Mutual recursion with the caller."""
    LOG.append(n)
    if n <= 0:
        return 0
    return 1 + f(g, f, n - 1)


# -- life of proxied objects ------------------------------------------------
import weakref   # noqa: E402
HELD = {}
WEAK = {}


def create(k, v):
    """A new object under the name k (the one before it is let go)."""
    HELD.pop(k, None)
    o = Obj(v)
    HELD[k] = o
    WEAK[v] = weakref.ref(o)


def obtain(k):
    return HELD[k]


def forget(k):
    HELD.pop(k, None)


def same(o):
    return o


def alive(v):
    return WEAK[v]() is not None


def store(k, p):
    STATE[k] = p


def use_stored(k):
    return STATE[k].get()


def delete_stored(k):
    STATE[k]._delete()


def drop_stored(k, auto=False):
    if auto:
        STATE[k]._set_proxy_options(auto_delete=True)
    del STATE[k]


def send_stored(k, f):
    return f(STATE[k])


# -- identity ----------------------------------------------------------------
class Node:
    def __init__(self, name, v):
        self.name = name
        self.v = v
        self.child = None

    def get(self):
        return self.v

    def __eq__(self, other):
        STATE['eq'] = STATE.get('eq', 0) + 1
        return self is other

    __hash__ = object.__hash__


def node(name):
    """A tree of depth 2; also published here."""
    o = Node(name, name + '-v')
    o.child = Node(name + '.c', name + '.c-v')
    STATE[name] = o
    return o


TRAIL = []


def inner(x):
    while not (type(x).__name__ in ('ObjectProxy', 'Node', 'str')):
        x = x['k'] if isinstance(x, dict) else x[0]
    return x


def relay(path, x):
    TRAIL.append(x)
    if path:
        return path[0](path[1:], x)
    return x


def probe(i):
    """What did arrive?"""
    x = inner(TRAIL[i])
    if type(x).__name__ != 'ObjectProxy':
        return 'not a proxy'
    v = x._get_value()
    if isinstance(v, str):
        return v
    return x.name._get_value()


def shape(i):
    return shape_of(TRAIL[i])


def shape_of(x):
    t = type(x).__name__
    if t == 'dict':
        return {'k': shape_of(x['k'])}
    if t in ('list', 'tuple'):
        return [t] + [shape_of(y) for y in x]
    return 'x'


def same_there(a, b):
    """Are two proxies equal here (without a request), with equal hashes?"""
    r = a == b
    return [r if isinstance(r, bool) else repr(r), hash(a) == hash(b), len({a, b})]


KEPT = None


def keep(*args, **kwds):
    """Hands back what it got, and keeps it."""
    global KEPT
    KEPT = (args, kwds)
    return list(args)


def state_of(k):
    return STATE[k]


def call(f, *args):
    f(*args)


TICKS = []


def tick():
    TICKS.append(time.time())


class Ticker:
    def __init__(self, depth=1):
        if depth:
            self.other = Ticker(depth - 1)

    def tick(self):
        TICKS.append(time.time())

    __call__ = tick


# -- shared arrays -----------------------------------------------------------
ARR = {}


def shm_put(k, sa):
    ARR[k] = sa


def shm_get(k):
    return ARR[k]


def shm_new(k, values, close):
    import numpy
    from teleprox.shmem import SharedNDArray
    ARR[k] = SharedNDArray.copy(numpy.array(values), close=close)
    return ARR[k].shmem.name


def shm_again(k, k2):
    from teleprox.shmem import SharedNDArray
    ARR[k2] = SharedNDArray.copy(ARR[k].data)
    return ARR[k2].shmem.name


def shm_read(k):
    return ARR[k].data.tolist()


def shm_write(k, i, v):
    ARR[k].data[i] = v


def shm_look(sa):
    a = sa.data
    return [list(a.shape), str(a.dtype), repr(a.tolist())]


def shm_set(sa, b):
    """Overwrite the contents with the given bytes."""
    import numpy
    a = sa.data
    if a.size:
        a[...] = numpy.frombuffer(b, dtype=a.dtype).reshape(a.shape)


def shm_cleanup():
    import teleprox.shmem
    teleprox.shmem.close_all()


# -- objects at reused addresses ----------------------------------------------
def create_at(k, v, addr):
    """A new object, at the given address if possible; returns its address."""
    keep = []
    HELD.pop(k, None)
    o = Obj(v)
    for i in range(300):
        if addr is None or id(o) == addr:
            break
        keep.append(o)
        o = Obj(v)
    HELD[k] = o
    WEAK[v] = weakref.ref(o)
    return id(o)


class Thing:
    def meth(self):
        return 'meth'


class Greedy(list):
    """Equal to everything, not hashable."""

    def __eq__(self, other):
        return True


THING = Thing()
KINDS = {'class': Obj, 'builtin': len, 'method': THING.meth, 'module': time, 'lambda': lambda: 5, 'function': ret, 'instance': THING,
         'list': [1, 2], 'greedy': Greedy(), 'int': 10 ** 30, 'str': 'some text', 'type': int, 'exception': ValueError('x'), 'bm': [].append,
         'classmethod': dict.fromkeys, 'empty': (), 'none': None, 'generator': (i for i in ()), 'bytes': b'abc' * 50}


def kind(k):
    return KINDS[k]


def is_kind(k, x):
    return KINDS[k] is x


class Unreadable:
    """Can be sent by value, but not be read by the receiver."""

    def __init__(self, kind):
        self.kind = kind

    def __reduce__(self):
        return [(int, ('x',)), (divmod, (1, 0)), (getattr, (1, 'nothing')), ({}.pop, (1,))][self.kind]


def unreadable(kind, form):
    x = Unreadable(kind)
    return [x, [1, {'a': x}], (x, x, 2)][form]


def ns_put(addr, name, v):
    import teleprox
    teleprox.RPCClient.get_client(addr)[name] = v


def ns_get(addr, name):
    import teleprox
    return teleprox.RPCClient.get_client(addr)[name]
