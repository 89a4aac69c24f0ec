"""Values and objects for checking call options."""
import collections
import datetime
import fractions
import time

import numpy as np


class Thing:
    """Answers calls in a recognizable way."""
    num = 7
    words = ['a', 'b']

    def __init__(self, depth=3):
        self.calls = 0
        if depth:
            self.sub = Thing(depth - 1)

    def __call__(self, d=0):
        self.calls += 1
        if d:
            time.sleep(d)
        return [1]

    def slow(self):
        self.calls += 1
        time.sleep(0.25)

    def boom(self):
        raise ValueError('boom')


def thing():
    return Thing()


class Sub(dict):
    pass


def func():
    pass


OBJ = Thing()
VALUES = [
    ('none', None), ('true', True), ('int', 5), ('float', .5), ('str', 'abc'), ('bytes', b'ab'), ('list', [1, 'x']),
    ('tuple', (1, 2)), ('dict', {'a': 1}), ('date', datetime.date(2020, 1, 2)),
    ('datetime', datetime.datetime(2020, 1, 2, 3)), ('slice', slice(1, 2)),
    ('array', np.arange(3)), ('array0', np.array(2.)), ('scalar', np.int16(4)), ('npbool', np.bool_(True)),
    ('dtype', np.dtype('i4')),
    ('set', {1, 2}), ('frozenset', frozenset('a')), ('complex', 1j), ('fraction', fractions.Fraction(1, 3)),
    ('object', OBJ), ('func', func), ('class', Thing), ('method', OBJ.boom), ('module', collections),
    ('exception', ValueError('x')), ('deque', collections.deque([1])), ('builtin', len), ('time', datetime.time(1)),
    ('range', range(3)), ('generator', iter([1])), ('ellipsis', Ellipsis),
]
NAMES = [n for n, v in VALUES]
BY_NAME = dict(VALUES)
EXTRA = (set, fractions.Fraction, complex)


def get(n):
    return BY_NAME[n]


def nested(n, how):
    v = BY_NAME[n]
    return {'list': [v], 'tuple': (1, v), 'dict': {'k': v}, 'deep': [{'a': (v,)}]}[how]


GOT = None


def take(*a, **k):
    global GOT
    GOT = (a, k)


def settings(st, name):
    """Serializable types: the default, with more, with fewer."""
    d = st.default_serialize_types
    if name == 'default':
        return None
    if name == 'more':
        return tuple(d) + EXTRA
    return tuple(t for t in d if t not in (np.ndarray, datetime.date, datetime.datetime))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a == b
