"""Objects and operations for comparing proxies with the objects themselves."""
import copy
import functools
import operator

import numpy as np


class Num:
    """Has every operator, tells them apart, and can be changed in place."""

    def __init__(self, v, trail=()):
        self.v = v
        self.trail = list(trail)

    def __getitem__(self, k):
        if k == 'missing':
            raise KeyError(k)
        if isinstance(k, int) and k >= 4:
            raise IndexError(k)
        return ['item', self.v, k]

    def __setitem__(self, k, x):
        self.trail.append(['set', k, _plain(x)])

    def __len__(self):
        return 4

    def __str__(self):
        return 'Num-%s' % self.v

    def __hash__(self):
        return 1


def _plain(x):
    return ['num', x.v] if isinstance(x, Num) else (x if type(x) in (int, str, float, bool, list) else str(type(x)))


def _op(n):
    def f(self, other):
        return [n, self.v, _plain(other)]
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lshift', 'rshift', 'and', 'or', 'xor'):
    setattr(Num, '__%s__' % _n, _op(_n))
    setattr(Num, '__r%s__' % _n, _op('r' + _n))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(Num, '__%s__' % _n, _op(_n))
Num.__pow__ = lambda self, o, m=None: ['pow', self.v, _plain(o), m]
Num.__rpow__ = lambda self, o: ['rpow', self.v, _plain(o)]


def _iop(n):
    def f(self, other):
        self.trail.append([n, _plain(other)])
        return self
    return f


for _n in ('iadd', 'isub', 'imul', 'ior', 'ilshift'):
    setattr(Num, '__%s__' % _n, _iop(_n))


class Bare:
    """Has none."""

    def __init__(self):
        self.x = 1


class Picky:
    """Handles its own kind only."""

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return self.v + o.v if isinstance(o, Picky) else NotImplemented

    def __lt__(self, o):
        return self.v < o.v if isinstance(o, Picky) else NotImplemented

    def __eq__(self, o):
        return self.v == o.v if isinstance(o, Picky) else NotImplemented

    def __len__(self):
        raise OverflowError('too long')

    def __getitem__(self, k):
        raise IndexError(k)

    def __str__(self):
        raise ArithmeticError('no text')


VALUES = [
    7, -3, 0, 2.5, True, 'ab', '%s|%s', [3, 1], (1, 2), {'a': 1, 2: 'b'}, b'xy',
    np.array([1., 2.]), np.arange(6).reshape(2, 3), None,
    Num(5), Bare(), Picky(2), list, {1, 2}, 1 + 2j, Num(6), Picky(3),
]
N_PLAIN = 14                # the first ones can be sent by value


def fresh(i):
    return copy.deepcopy(VALUES[i])


BINARY = {n: getattr(operator, n) for n in (
    'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and_', 'or_', 'xor',
    'eq', 'ne', 'lt', 'le', 'gt', 'ge')}
INPLACE = {n: getattr(operator, n) for n in (
    'iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'ipow', 'ilshift', 'irshift', 'iand', 'ior', 'ixor')}
KEYS = [0, -1, 1, 5, 'a', 2, 'missing', None, slice(0, 1), slice(None, None, -1), (0, 1), 'k', (1, slice(0, 2)), 2.0]
UNARY = {'len': len, 'str': str}


class Tree:
    def __init__(self, name, depth=2):
        self.name = name
        self.val = len(name)
        self.data = [1, 2]
        self.__tag__ = 'tag ' + name
        if depth:
            self.left = Tree(name + 'l', depth - 1)
            self.right = Tree(name + 'r', depth - 1)

    def text(self, a='x', *rest, b=0, **more):
        return [self.name, a, list(rest), b, more]

    @property
    def prop(self):
        return self.name + '!'

    @property
    def bad(self):
        raise LookupError('bad property')

    @classmethod
    def cm(cls, x=1):
        return [cls.__name__, x]

    @staticmethod
    def sm(x=1):
        return ['static', x]

    def __call__(self, *a, **k):
        return ['called', self.name, list(a), k]


def tree():
    return Tree('t')


def fixed(a, b=2, *, c=3):
    return [a, b, c]


def var(*args, **kwds):
    return [list(args), kwds]


FUNCS = {
    'var': var, 'fixed': fixed, 'divmod': divmod, 'int': int, 'dict': dict, 'max': max, 'none': lambda: None,
    'partial': functools.partial(var, 1, z=2), 'upper': 'ab'.upper, 'method': Tree('m').text, 'cm': Tree.cm,
    'sm': Tree.sm, 'inst': Tree('i'), 'cls': Tree, 'notcallable': 5,
}


def get_func(k):
    return FUNCS[k]


def state(x):
    """A comparable picture of an object's state."""
    if isinstance(x, Num):
        return ('num', x.v, state(x.trail))
    if isinstance(x, Picky):
        return ('picky', x.v)
    if isinstance(x, Tree):
        return ('tree', sorted((k, state(v)) for k, v in x.__dict__.items()))
    if isinstance(x, Bare):
        return ('bare', sorted(x.__dict__))
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.shape, repr(x.tolist()))
    if isinstance(x, np.generic):
        return ('np', str(x.dtype), repr(x.item()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [state(y) for y in x])
    if isinstance(x, dict):
        return ('dict', sorted(((repr(k), state(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, type):
        return ('type', x.__name__)
    return ('other', type(x).__name__, str(x) if type(x).__module__ == 'types' else '')


def picture(*roots):
    """The objects and how they are connected."""
    num = {}

    def pic(x):
        if isinstance(x, (Tree, list, dict, Bare)):
            if id(x) in num:
                return ('seen', num[id(x)])
            num[id(x)] = len(num)
            if isinstance(x, list):
                return ('list', [pic(y) for y in x])
            d = x if isinstance(x, dict) else x.__dict__
            return (type(x).__name__, [(repr(k), pic(d[k])) for k in sorted(d, key=repr)])
        if isinstance(x, tuple):
            return ('tuple', [pic(y) for y in x])
        if hasattr(x, '__self__') and isinstance(x.__self__, Tree):
            return ('method', x.__name__, pic(x.__self__))
        return state(x)
    return [pic(x) for x in roots]


def bag(*args, **kwds):
    return [list(args), kwds]
