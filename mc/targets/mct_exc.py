"""Ways to fail."""
import threading


class BadText(Exception):
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Own(BaseException):
    pass


class Rich(Exception):
    def __init__(self, a, b):
        Exception.__init__(self)
        self.a, self.b = a, b

    def __str__(self):
        return '%s and %s' % (self.a, self.b)


KINDS = ('plain', 'badstr', 'chained', 'context', 'percent', 'lines', 'surrogate', 'own', 'rich', 'group', 'stop', 'empty', 'notes', 'long', 'deep')


def culprit(kind, token):
    if kind == 'plain':
        raise ValueError(token)
    if kind == 'badstr':
        raise BadText(token)
    if kind == 'chained':
        try:
            {}['key-' + token]
        except KeyError as e:
            raise OSError(token) from e
    if kind == 'context':
        try:
            1 / 0
        except ZeroDivisionError:
            raise RuntimeError(token)
    if kind == 'percent':
        raise ValueError('%s %d %(x)s ' + token)
    if kind == 'lines':
        raise ValueError('first\n' + token + '\n\nlast')
    if kind == 'surrogate':
        raise ValueError('\udc80\xe4 ' + token)
    if kind == 'own':
        raise Own(token)
    if kind == 'rich':
        raise Rich(token, 2)
    if kind == 'group':
        raise ExceptionGroup(token, [ValueError(1), TypeError(2)])
    if kind == 'stop':
        raise StopIteration(token)
    if kind == 'empty':
        raise LookupError
    if kind == 'long':
        raise ValueError('x' * 70000 + token)
    if kind == 'deep':
        def down(n):
            if n == 0:
                raise ValueError(token)
            return up(n) if n % 2 else down(n - 1)

        def up(n):
            return down(n - 1)
        down(150)
    if kind == 'notes':
        e = ValueError(token)
        e.add_note('a note')
        raise e


NAMES = {'plain': 'ValueError', 'badstr': 'BadText', 'chained': 'OSError', 'context': 'RuntimeError', 'percent': 'ValueError',
         'lines': 'ValueError', 'surrogate': 'ValueError', 'own': 'Own', 'rich': 'Rich', 'group': 'ExceptionGroup',
         'stop': 'StopIteration', 'empty': 'LookupError', 'notes': 'ValueError', 'long': 'ValueError', 'deep': 'ValueError'}


def expected(kind, token):
    """Texts that the record must contain."""
    out = [NAMES[kind], 'in culprit']
    if kind not in ('badstr', 'empty'):
        out.append(token)
    if kind == 'chained':
        out += ['KeyError', 'direct cause']
    if kind == 'context':
        out += ['ZeroDivisionError', 'During handling']
    if kind == 'percent':
        out.append('%s %d %(x)s ' + token)
    if kind == 'lines':
        out.append('last')
    if kind == 'group':
        out += ['TypeError: 2']
    if kind == 'notes':
        out += ['a note']
    return out


class Obj:
    """Raises everywhere."""

    def __init__(self, kind=None, token=None):
        self.__dict__['todo'] = (kind, token)

    def aim(self, kind, token):
        self.__dict__['todo'] = (kind, token)

    def me(self):
        return self

    def method(self, *a, **k):
        culprit(*self.todo)

    @property
    def prop(self):
        culprit(*self.todo)

    def __getitem__(self, i):
        culprit(*self.todo)

    def __setitem__(self, i, v):
        culprit(*self.todo)

    def __setattr__(self, n, v):
        culprit(*self.todo)

    def __call__(self):
        culprit(*self.todo)

    def __str__(self):
        raise ValueError('no text either')
    __repr__ = __str__


def in_thread(kind, token, daemon=True):
    threading.Thread(target=culprit, args=(kind, token), daemon=daemon).start()


class Sub(threading.Thread):
    def run(self):
        culprit(*self.what)


def in_subclass(kind, token):
    t = Sub(daemon=True)
    t.what = (kind, token)
    t.start()


def in_pool(kind, token):
    """Not uncaught: kept in the future."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as p:
        f = p.submit(culprit, kind, token)
        e = f.exception()
    return type(e).__name__


def caught(kind, token):
    try:
        culprit(kind, token)
    except BaseException as e:
        return type(e).__name__


def in_timer(kind, token):
    from teleprox.timer import Timer
    t = Timer(lambda: culprit(kind, token), 0.01)
    t.start()
