"""C22: Qt is imported only on request and never overridden."""
from ..harness import Sys, eq, pick, true

ASSUMPTIONS = [
    'simulated Qt bindings; a binding may be absent, complete, or fail to import its top level, QtGui or QtWidgets',
    'a binding counts as importable if its QtCore is; bindings fail with ImportError',
    'requests come from one thread',
]
TECHNIQUE = ('exhaustive enumeration of histories of checking, requesting and importing Qt for all subsets of '
             '(partly) importable bindings, executed by the real module and compared with a reference model')

LIBS = ('PyQt6', 'PySide6', 'PyQt5', 'PySide2')
KINDS = ('no', 'ok', 'core', 'gui', 'wid')


class Model:
    def __init__(self, kinds):
        self.kinds = dict(zip(LIBS, kinds))
        self.loaded = []            # bindings with modules loaded, in order
        self.lib = None             # the one used from now on
        self.asked = False
        self.ns = None
        self.may = set()            # bindings that may have been imported

    def touch(self, lib, sub='QtCore'):
        """Import a module of a binding; does it work?"""
        k = self.kinds.get(lib, 'no')
        if k == 'no':
            return False
        self.may.add(lib)
        ok = not (k == 'core' and sub == 'QtCore' or k == 'gui' and sub == 'QtGui' or k == 'wid' and sub == 'QtWidgets')
        if ok and lib not in self.loaded:
            self.loaded.append(lib)
        return ok


class Choice(Sys):
    opts = {'watchdog': 300.0}

    def __init__(self, name, ops, depth, configs, **kw):
        Sys.__init__(self, **kw)
        self.ops, self.depth, self.configs = ops, depth, configs
        self.name = name

    def main(self, w):
        self.w, self.img = w, w.img
        i = pick(w, len(self.configs), 'config')
        kinds = self.configs[i]
        first = pick(w, len(self.ops), 'first')
        for m in list(w.img.modules):
            true(m.partition('.')[0] not in LIBS, 'importing the package imported %s' % m)
        true('teleprox.qt' not in w.img.modules, 'importing the package imported teleprox.qt')
        n = 0
        idx = [0] * (self.depth - 1)
        while True:
            self.history(kinds, [self.ops[first]] + [self.ops[k] for k in idx])
            n += 1
            for j in reversed(range(self.depth - 1)):
                idx[j] += 1
                if idx[j] < len(self.ops):
                    break
                idx[j] = 0
            else:
                break
        w.cases += n
        w.note(i, first, n)

    def reset(self, kinds):
        img = self.img
        mods = img.modules
        for m in list(mods):
            if m.partition('.')[0] in LIBS or m in ('teleprox.qt', 'teleprox.qt_util'):
                mods.pop(m)
        for a in ('qt', 'qt_util'):
            mods['teleprox'].__dict__.pop(a, None)
        img.qtstate.app = None
        img.qt.clear()
        img.qt['importable'] = tuple(l for l, k in zip(LIBS, kinds) if k != 'no')
        img.qt['broken'] = {'%s.%s' % (l, {'core': 'QtCore', 'gui': 'QtGui', 'wid': 'QtWidgets'}[k]): 'broken installation'
                            for l, k in zip(LIBS, kinds) if k not in ('no', 'ok')}
        self.u = img.import_module('teleprox.qt_util')

    def history(self, kinds, ops):
        self.reset(kinds)
        m = Model(kinds)
        for i, o in enumerate(ops):
            what = '%s, %s' % (dict((l, k) for l, k in zip(LIBS, kinds) if k != 'no'), ops[:i + 1])
            self.step(m, o, what)
            now = set(self.img.qt.get('imported', ()))
            true(now <= m.may, '%s: imported %s' % (what, sorted(now - m.may)))
        if m.lib is not None:
            eq(self.u.QT_LIB, m.lib, 'QT_LIB; ' + what)

    def decide(self, m, what, reported):
        """The binding to be used, if one is loaded."""
        if m.lib is None and m.loaded:
            true(reported in m.loaded, '%s: %r used, but %s is loaded' % (what, reported, m.loaded))
            m.lib = reported

    def step(self, m, o, what):
        u, img = self.u, self.img
        if o == 'check':
            r = u.check_qt_imported()
            if m.loaded or m.lib is not None:
                true(r is True, '%s: %r' % (what, r))
                self.decide(m, what, u.QT_LIB)
                eq(u.QT_LIB, m.lib, 'QT_LIB; ' + what)
            else:
                true(r is None or m.asked and r is False, '%s: %r' % (what, r))
            return
        if o == 'install':
            # all installations are repaired
            for l, k in list(m.kinds.items()):
                if k not in ('no', 'ok'):
                    m.kinds[l] = 'ok'
            img.qt['broken'] = {}
            return
        if o == 'add':
            # another binding is installed
            m.kinds['PyQt5'] = 'ok'
            img.qt['importable'] = tuple(set(img.qt['importable']) | {'PyQt5'})
            img.qt['broken'].pop('PyQt5.QtCore', None)
            img.qt['broken'].pop('PyQt5.QtGui', None)
            img.qt['broken'].pop('PyQt5.QtWidgets', None)
            return
        if o[0] == 'prog':
            ok = m.touch(o[1], o[2])
            try:
                img.import_module('%s.%s' % o[1:])
                true(ok, what)
            except ImportError:
                true(not ok, what)
            return
        given = o[1] if o[0] == 'give' else None
        m.asked = True
        exc = ns = None
        try:
            if o == 'module':
                mod = img.import_module('teleprox.qt')
                ns = mod.__dict__
            elif given:
                ns = u.import_qt(given)
            else:
                ns = u.import_qt()
        except Exception as e:
            exc = e
        if o == 'module' and m.ns is not None and getattr(self, 'qtmod', None) is m.ns:
            true(exc is None, '%s: %r' % (what, exc))
        # what is expected?
        if m.lib is None and m.loaded:
            self.decide(m, what, u.QT_LIB)
        if m.lib is not None and given not in (None, m.lib):
            true(isinstance(exc, ValueError), '%s: %r, expected a ValueError (%s is in use)' % (what, exc, m.lib))
            true(m.lib in str(exc), '%s: the error does not name %s: %s' % (what, m.lib, exc))
            return
        if m.lib is None:
            for l in (given,) if given else LIBS:
                if m.touch(l):
                    m.lib = l
                    break
        if m.lib is None or m.ns is None and not all([m.touch(m.lib, s) for s in ('QtCore', 'QtGui', 'QtWidgets')]):
            true(isinstance(exc, ImportError), '%s: %r, expected an ImportError' % (what, exc))
            true(not u.qt_namespace, '%s: a partial namespace was left behind' % what)
            true('teleprox.qt' not in img.modules, '%s: a partial module was left behind' % what)
            return
        true(exc is None, '%s: %r' % (what, exc))
        eq(u.QT_LIB, m.lib, 'QT_LIB; ' + what)
        true(u.HAVE_QT is True and u.check_qt_imported() is True, '%s: HAVE_QT is %r' % (what, u.HAVE_QT))
        lib = m.lib
        for n, s in (('QTimer', 'QtCore'), ('QVector3D', 'QtGui'), ('QApplication', 'QtWidgets'), ('QWidget', 'QtWidgets')):
            true(n in ns and ns[n] is img.modules['%s.%s' % (lib, s)].__dict__[n], '%s: %s is not that of %s' % (what, n, lib))
        core = img.modules[lib + '.QtCore'].__dict__
        true(ns['Signal'] is core['Signal' if 'PySide' in lib else 'pyqtSignal'], '%s: Signal' % what)
        if m.ns is None:
            app = ns['make_qapp']()
            true(app is ns['make_qapp']() and isinstance(app, ns['QApplication']), '%s: make_qapp()' % what)
        if o != 'module':
            if m.ns is not None:
                true(ns is m.ns, '%s: another namespace' % what)
            m.ns = ns
        elif m.ns is None:
            m.ns = u.import_qt()


def scenarios(tier):
    q = tier == 'quick'
    from itertools import product
    full = ['check', 'any', 'module', 'install', 'add'] + [('give', l) for l in LIBS + ('NoQt',)] + \
        [('prog', l, 'QtCore') for l in LIBS] + [('prog', 'PySide6', 'QtWidgets')]
    few = ['check', 'any', ('give', 'PyQt6'), ('give', 'PyQt5'), ('prog', 'PyQt6', 'QtCore'), ('prog', 'PyQt5', 'QtGui'),
           'install']
    c4 = list(product(('no', 'ok', 'gui'), repeat=4)) + [c for c in product(KINDS, repeat=4)
                                                           if set(c) & {'core', 'wid'} and (not q or c.count('no') >= 2)]
    c2 = [(a, 'no', b, 'no') for a in KINDS for b in KINDS]
    return [(Choice('full-alphabet', full, 2 if q else 3, c4), 0), (Choice('two-bindings', few, 4 if q else 5, c2), 0)]
