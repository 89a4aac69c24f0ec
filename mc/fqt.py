"""A small Qt: event loop, threads with queued signals, applications."""
import collections
import types

from . import sched as S

LIBS = ('PyQt6', 'PySide6', 'PyQt5', 'PySide2')


class EventQueue:
    def __init__(self, ident):
        self.ident = ident
        self.q = collections.deque()
        self.running = 0
        self.quit = False


class State:
    def __init__(self, image):
        self.image = image
        self.queues = {}
        self.app = None
        self.quit_calls = 0
        self.threads = []
        self.executed = []
        self.aborted = None

    def queue(self, ident=None):
        if ident is None:
            ident = S.cur().current.ident
        q = self.queues.get(ident)
        if q is None:
            q = self.queues[ident] = EventQueue(ident)
        return q

    def call(self, f, args):
        """Invoke a slot from the event loop."""
        img = self.image
        try:
            f(*args)
        except (S.Killed, S.HarnessError, S.Violation):
            raise
        except BaseException as e:
            hook = img.sys.excepthook
            hook(type(e), e, e.__traceback__)
            if hook is img.sys.__excepthook__:
                self.aborted = e            # PyQt5: qFatal
                img.die(-6)
                raise S.Killed()

    def process(self, q, limit=None):
        n = len(q.q) if limit is None else limit
        while n > 0 and q.q:
            n -= 1
            f, args, done = q.q.popleft()
            S.cur().point('qt.event')
            self.call(f, args)
            if done is not None:
                done.append(1)

    def exec_(self):
        s = S.cur()
        q = self.queue()
        q.running += 1
        q.quit = False
        try:
            while not q.quit:
                if q.q:
                    self.process(q, 1)
                    continue
                s.block(lambda: bool(q.q) or q.quit, None, 'qt.exec')
        finally:
            q.running -= 1
        return 0

    def post(self, ident, f, args, done=None):
        self.queue(ident).q.append((f, args, done))


def install(image):
    st = State(image)
    image.qtstate = st
    for lib in LIBS:
        image.finders[lib] = lambda name, image=image: load(image, name)


def load(image, name):
    lib, _, sub = name.partition('.')
    if lib not in image.qt['importable']:
        return None
    broken = image.qt.get('broken', {}).get(name)
    if broken:
        raise ImportError(broken)
    if not sub:
        m = types.ModuleType(lib)
        m.__path__ = []
        image.qt.setdefault('imported', []).append(lib)
        return m
    ns = _build(image, lib)
    if sub not in ns:
        return None
    m = types.ModuleType(name)
    m.__dict__.update(ns[sub])
    return m


def _build(image, lib):
    key = '_ns_' + lib
    ns = image.qt.get(key)
    if ns is not None:
        return ns
    st = image.qtstate

    class Connection_:
        pass

    class BoundSignal:
        def __init__(self, owner, name):
            self.owner = owner
            self.name = name
            self.slots = []

        def connect(self, slot, type=0):
            self.slots.append((slot, type, S.cur().current.ident))

        def disconnect(self, slot=None):
            if slot is None:
                if not self.slots:
                    raise TypeError('disconnect() failed')
                self.slots = []
                return
            n = len(self.slots)
            self.slots = [x for x in self.slots if x[0] != slot]
            if len(self.slots) == n:
                raise TypeError('disconnect() failed')

        def emit(self, *args):
            s = S.cur()
            s.point('signal.emit')
            me = s.current.ident
            for slot, typ, cid in list(self.slots):
                if isinstance(slot, BoundSignal):
                    slot.emit(*args)
                    continue
                tgt = getattr(slot, '__self__', None)
                if isinstance(tgt, QObject):
                    home = tgt._qt_thread
                elif self.owner is not None:
                    home = self.owner._qt_thread
                else:
                    home = cid
                if typ == 1 or (typ == 0 and home == me):
                    st.call(slot, args)
                elif typ == 3:
                    done = []
                    st.post(home, slot, args, done)
                    s.block(lambda: bool(done), None, 'qt.blockingqueued')
                else:
                    st.post(home, slot, args)

        __call__ = emit

    class Signal:
        def __init__(self, *types_, name=None, arguments=()):
            self.types = types_
            self.name = name

        def __set_name__(self, owner, name):
            self.name = name

        def __get__(self, obj, cls=None):
            if obj is None:
                return self
            key = '_sig_%s_%d' % (self.name, id(self))
            b = obj.__dict__.get(key)
            if b is None:
                b = obj.__dict__[key] = BoundSignal(obj, self.name)
            return b

    class QObject:
        destroyed = Signal(object)

        def __init__(self, parent=None):
            self._qt_thread = S.cur().current.ident
            self._qt_parent = parent

        def moveToThread(self, t):
            self._qt_thread = t._run_ident or t._pre_ident()

        def thread(self):
            return None

        def parent(self):
            return self._qt_parent

        def deleteLater(self):
            pass

        def objectName(self):
            return ''

        def setObjectName(self, n):
            pass

    class QThread(QObject):
        finished = Signal()
        started = Signal()

        def __init__(self, parent=None):
            QObject.__init__(self, parent)
            self._task = None
            self._run_ident = None
            self._fin = False
            self._intr = False
            st.threads.append(self)

        def _pre_ident(self):
            return None

        def run(self):
            self.exec_()

        def start(self, priority=None):
            s = S.cur()
            if self._task is not None and not self._task.done:
                return

            def body():
                self._run_ident = S.cur().current.ident
                self.started.emit()
                try:
                    self.run()
                except (S.Killed, S.HarnessError, S.Violation):
                    raise
                except BaseException as e:
                    hook = image.sys.excepthook
                    hook(type(e), e, e.__traceback__)
                    if hook is image.sys.__excepthook__:
                        st.aborted = e
                        image.die(-6)
                        raise S.Killed()
                self._fin = True
                self.finished.emit()
            self._fin = False
            image.threads_spawned += 1
            self._task = image.spawn_task(body, 'Q%d' % image.threads_spawned)
            s.point('qthread.start')

        def exec_(self):
            return st.exec_()

        exec = exec_

        def quit(self):
            if self._run_ident is not None:
                st.queue(self._run_ident).quit = True

        def exit(self, code=0):
            self.quit()

        def wait(self, msecs=None):
            s = S.cur()
            s.point('qthread.wait')
            if not isinstance(msecs, int) or msecs >= 2 ** 32 - 1:
                msecs = None
            t = self._task
            if t is None:
                return True
            return s.block(lambda: t.done, None if msecs is None else msecs / 1000.0, 'qthread.wait')

        def isRunning(self):
            return self._task is not None and not self._task.done

        def isFinished(self):
            return self._task is not None and self._task.done

        def requestInterruption(self):
            self._intr = True

        def isInterruptionRequested(self):
            return self._intr

        def terminate(self):
            pass

        def setTerminationEnabled(self, *a):
            pass

        def setPriority(self, *a):
            pass

        @staticmethod
        def currentThread():
            me = S.cur().current.ident
            for t in st.threads:
                if t._run_ident == me:
                    return t
            return None

        @staticmethod
        def msleep(n):
            S.cur().sleep(n / 1000.0)

        @staticmethod
        def sleep(n):
            S.cur().sleep(n)

    class QCoreApplication(QObject):
        aboutToQuit = Signal()

        def __init__(self, argv=()):
            QObject.__init__(self)
            st.app = self
            st.app_ident = S.cur().current.ident

        @staticmethod
        def instance():
            return st.app

        @staticmethod
        def processEvents(*a):
            s = S.cur()
            s.point('processEvents')
            # only the events of the calling thread are processed
            st.process(st.queue())

        @staticmethod
        def exec_():
            return st.exec_()

        exec = exec_

        @staticmethod
        def quit():
            st.quit_calls += 1
            if st.app is not None:
                q = st.queue(st.app_ident)
                if q.running:
                    q.quit = True

        @staticmethod
        def exit(code=0):
            QCoreApplication.quit()

        @staticmethod
        def setQuitOnLastWindowClosed(b):
            pass

        @staticmethod
        def sendPostedEvents(*a):
            st.process(st.queue())

    class QApplication(QCoreApplication):
        pass

    class QTimer(QObject):
        timeout = Signal()

        @staticmethod
        def singleShot(ms, f):
            me = S.cur().current.ident

            def body():
                S.cur().sleep(ms / 1000.0)
                st.post(me, f, ())
            image.spawn_task(body, 'qtimer')

    class QEventLoop(QObject):
        def exec_(self):
            return st.exec_()
        exec = exec_

        def quit(self):
            st.queue().quit = True

        def processEvents(self, *a):
            st.process(st.queue())

    class Qt:
        AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection = 0, 1, 2, 3

        class ConnectionType:
            AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection = 0, 1, 2, 3

    def slot(*a, **k):
        return lambda f: f

    core = dict(QObject=QObject, QThread=QThread, QCoreApplication=QCoreApplication, QTimer=QTimer,
                QEventLoop=QEventLoop, Qt=Qt, __mc_lib__=lib)
    if lib.startswith('PyQt'):
        core.update(pyqtSignal=Signal, pyqtSlot=slot)
    else:
        core.update(Signal=Signal, Slot=slot)
    for n in ('QPoint', 'QSize', 'QRect', 'QLine', 'QLineF', 'QPointF', 'QSizeF', 'QRectF'):
        core[n] = type(n, (), {'__module__': lib + '.QtCore'})
    gui = {'__mc_gui__': lib}
    for n in ('QMatrix4x4', 'QMatrix3x3', 'QMatrix2x2', 'QTransform', 'QVector3D', 'QVector4D', 'QQuaternion'):
        gui[n] = type(n, (), {'__module__': lib + '.QtGui'})
    # widgets: only what they receive (setters do nothing, getters return another such object)
    class Anything:
        def __call__(self, *a, **k):
            return Anything()

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return Anything()

        def __bool__(self):
            return False

    class QWidget(QObject):
        def __init__(self, parent=None, *a, **k):
            if S.cur().current.ident != getattr(st, 'app_ident', None):
                raise S.Violation('a widget was created outside the GUI thread')
            QObject.__init__(self, parent if isinstance(parent, QObject) else None)

    def setter(name):
        def f(self, *a, **k):
            if S.cur().current.ident != getattr(st, 'app_ident', None):
                raise S.Violation('%s.%s() was called outside the GUI thread' % (type(self).__name__, name))
            return Anything()
        return f
    for n in ('setLayout', 'layout', 'setWindowTitle', 'resize', 'show', 'hide', 'update', 'setStyleSheet', 'close',
              'setGeometry', 'setVisible', 'addWidget', 'addLayout', 'setContentsMargins', 'setSpacing', 'document',
              'append', 'setHtml', 'insertHtml', 'setPlainText', 'setReadOnly', 'clear', 'moveCursor',
              'setOpenExternalLinks', 'verticalScrollBar', 'textCursor', 'setTextCursor', 'setFont', 'font'):
        setattr(QWidget, n, setter(n))
    wid = {'QApplication': QApplication, 'QWidget': QWidget, '__mc_wid__': lib}
    for n in ('QGridLayout', 'QVBoxLayout', 'QHBoxLayout', 'QTextBrowser', 'QTextEdit', 'QPlainTextEdit', 'QLabel',
              'QPushButton', 'QTreeWidget', 'QListWidget', 'QMainWindow', 'QLineEdit', 'QComboBox', 'QSplitter'):
        wid[n] = type(n, (QWidget,), {})
    ns = {'QtCore': core, 'QtGui': gui, 'QtWidgets': wid}
    image.qt[key] = ns
    return ns
