"""Values to be transmitted, and their exact comparison."""
import datetime as dt
import struct

import numpy as np

TZ = dt.timezone(dt.timedelta(hours=-5, minutes=-30))


def _arrays():
    for d in ('?', 'i1', 'u1', '<i2', '>i2', '<i4', '>i4', '<i8', '>u8', '<f2', '<f4', '>f8', '<f8', 'c8', '>c16',
              np.longdouble, 'S3', 'U2', '>U2', 'M8[ns]', 'M8[D]', 'm8[s]', 'V3'):
        a = np.zeros(3, dtype=d)
        if a.dtype.kind in 'iufc?':
            a[:] = [1, 0, 3]
        elif a.dtype.kind in 'mM':
            a[:] = np.array([5, 0, 'NaT'], dtype=a.dtype)
        elif a.dtype.kind != 'V':
            a[:] = ['ab', '', 'c']
        yield a
    base = np.arange(24, dtype='<i4').reshape(2, 3, 4)
    yield base
    yield np.asfortranarray(base[0])
    yield base[:, ::2, 1:]
    yield base[::-1, 0]
    yield base.T
    yield np.broadcast_to(np.float32(2.5), (2, 2))
    yield np.array(7.25)
    yield np.array(3, dtype='>i2')
    yield np.zeros(0)
    yield np.zeros((0, 3), dtype='u1')
    yield np.zeros((3, 0, 2), dtype='<f4')
    yield np.array([np.nan, np.inf, -0.0])
    s = np.zeros(2, dtype=[('a', '<i4'), ('b', '>f8'), ('c', 'S2')])
    s['a'], s['b'], s['c'] = [1, 2], [.5, -.5], ['x', 'yz']
    yield s
    yield np.zeros((2, 1), dtype=[('p', [('q', 'u1'), ('r', '<f4', (2,))]), ('s', '?')])
    yield np.ones(2, dtype=np.dtype({'names': ['x', 'y'], 'formats': ['u1', '<i4'], 'offsets': [0, 4], 'itemsize': 12}))
    yield np.zeros(1, dtype=np.dtype([('a', 'u1'), ('b', '<f8')], align=True))
    r = np.arange(3.0)
    r.flags.writeable = False
    yield r


def _scalars():
    for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint32, np.uint64):
        yield t(np.iinfo(t).max)
        if np.iinfo(t).min:
            yield t(np.iinfo(t).min)
    for t in (np.float16, np.float32, np.float64):
        yield t(0.1)
        yield t(-0.0)
        yield t('inf')
        yield t('nan')
    yield np.longdouble(1) / 3
    yield np.complex64(1 + 2j)
    yield np.complex128(-.5j)
    yield np.bool_(True)
    yield np.bool_(False)


SIMPLE = [
    None, True, False, 0, 1, -1, 127, 128, -33, 255, 256, 65536, -2**31, 2**32, 2**53 + 1, 2**63 - 1, -2**63, 2**64 - 1,
    0.0, -0.0, 1.0, 0.1, 1e300, 5e-324, float('inf'), -float('inf'), float('nan'),
    '', 'a', 'x' * 40, 'y' * 300, 'z' * 70000, 'é€😀', '\0\n"\\', '___type_name___', 'none',
    b'', b'a', b'\0\xff' * 20, b'q' * 300, b'w' * 70000,
    dt.date(2020, 2, 29), dt.date.min, dt.date.max,
    dt.datetime(2020, 2, 29), dt.datetime(1, 1, 1, 1, 2, 3, 4), dt.datetime.max,
    dt.datetime(1999, 12, 31, 23, 59, 59, 999999, tzinfo=dt.timezone.utc), dt.datetime(2001, 3, 4, 5, tzinfo=TZ),
    dt.datetime(2001, 3, 4, 5, 6, 7, 80, tzinfo=dt.timezone(dt.timedelta(seconds=3661, microseconds=5))),
    slice(None), slice(1, -2, 3), slice('a', None, 2.5),
    [], (), {}, [[]], ((),), {'': {}},
    {'data': 1, 'dtype': 'x', 'shape': []},
    {'action': 'close', 'opts': None, 'req_id': 1, 'obj_id': 3},
]
NUMPY = list(_arrays()) + list(_scalars()) + [
    np.dtype('<f8'), np.dtype('>i2'), np.dtype('U7'), np.dtype('M8[ms]'), np.dtype([('a', '<i4'), ('b', '>f8', (2,))]),
    np.dtype('O'),
]
LEAVES = SIMPLE + NUMPY
# what must be refused, or arrive unchanged
LIMITS = [
    2**64, -2**63 - 1, 10**40, 'lone \udc80 surrogate', '\ud800', np.array([None, 1]), np.array([{}], dtype=object),
    np.zeros(1, dtype=[('a', 'O')]),
    {1}, frozenset('a'), 1j, object(), Ellipsis, NotImplemented, range(3), bytearray(b'ab'), memoryview(b'ab'), len,
    dt.time(1, 2), dt.timedelta(1), dt.timezone.utc, int, [].append, iter([]), ValueError('x'), np.datetime64('NaT'),
    np.timedelta64(5, 's'), np.str_('a'), np.bytes_(b'a'), np.datetime64('2020-01-01'),
    np.zeros(2, dtype=[('a', '<i4'), ('b', 'S2')])[0], np.ma.masked_array([1, 2], [0, 1]), np.matrix([[1, 2]]),
    np.rec.array([(1, 2.)], dtype=[('a', '<i4'), ('b', '<f8')]),
]
KEYS = [None, True, False, 0, 1, -5, 2**40, 1.5, float('inf'), '', 'k', 'é', 'w' * 40, b'', b'k', (), (1, 'a'), ((1,), None),
        dt.date(2020, 1, 2), dt.datetime(2020, 1, 2, 3, tzinfo=TZ), np.int64(3), np.float32(.5), np.bool_(True),
        np.dtype('i4'), (np.uint8(1), b'x')]
STRKEYS = ['', 'k', 'é', 'w' * 40, 'none', 'data', '__x__', '1', 'null']


def same(a, b, json=False):
    """Is b what must arrive for a?"""
    if json:
        if type(a) is tuple and type(b) is list:
            return len(a) == len(b) and all(same(x, y, True) for x, y in zip(a, b))
        if isinstance(a, np.floating) and type(b) is float:
            return struct.pack('d', float(a)) == struct.pack('d', b) or (a != a and b != b)
        if isinstance(a, (np.str_, np.bytes_)) and type(b) in (str, bytes):
            return a == b
    if isinstance(a, (bytearray, memoryview)) and type(b) is bytes:
        return bytes(a) == b            # (exception stated in the property)
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack('d', a) == struct.pack('d', b) or (a != a and b != b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and _bytes(a) == _bytes(b)
    if isinstance(a, np.generic):
        return a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, json) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        return all(same(k, l, json) and same(v, m, json) for (k, v), (l, m) in zip(_items(a), _items(b)))
    if isinstance(a, slice):
        return same([a.start, a.stop, a.step], [b.start, b.stop, b.step])
    if isinstance(a, dt.datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    return a == b


def _items(d):
    return sorted(d.items(), key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))


def _bytes(a):
    """The contents, without padding."""
    if a.dtype.names:
        return [_bytes(a[n]) for n in a.dtype.names]
    return a.tobytes()


def wraps(depth):
    """All nestings up to the given depth (functions of the innermost value)."""
    one = [('[%s]', lambda x: [x]), ('(%s,)', lambda x: (x,)), ('{k:%s}', lambda x: {'k': x}),
           ('[0,%s,0]', lambda x: [0, x, 'z'])]
    out = [('%s', lambda x: x)]
    level = list(out)
    for i in range(depth):
        level = [(n % m, (lambda f, g: lambda x: f(g(x)))(f, g)) for n, f in one for m, g in level]
        out += level
    return out


def short(x):
    r = repr(x)
    return r if len(r) < 120 else r[:100] + '...'
