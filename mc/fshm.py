"""Shared memory blocks of the simulated machine."""
import operator
import types

from . import sched as S


def install(image):
    w = image.world
    mp = types.ModuleType('multiprocessing')
    mp.__path__ = []
    sm = types.ModuleType('multiprocessing.shared_memory')

    class SharedMemory:
        def __init__(self, name=None, create=False, size=0, *, track=True):
            self._buf = None
            self._name = name
            if not size >= 0:
                raise ValueError("'size' must be a positive integer")
            if create:
                if size == 0:
                    raise ValueError("'size' must be a positive number different from zero")
                if name is None:
                    w.shm_seq += 1
                    name = 'psm_%d' % w.shm_seq
                if name in w.shm:
                    raise FileExistsError(17, 'File exists', name)
                if w.shm_fail:
                    raise OSError(28, 'No space left on device')
                # anonymous memory comes zeroed, as from ftruncate
                size = operator.index(size)
                w.shm[name] = {'buf': bytearray(size), 'owner': image.name, 'size': size}
                w.shm_log.append(('create', image.name, name))
            else:
                if name not in w.shm:
                    raise FileNotFoundError(2, 'No such file or directory: ' + repr('/' + str(name)))
                w.shm_log.append(('attach', image.name, name))
            blk = w.shm[name]
            self._name = name
            self._size = blk['size']
            self._blk = blk
            self._buf = memoryview(blk['buf'])
            self._open = True

        @property
        def buf(self):
            return self._buf

        @property
        def name(self):
            return self._name

        @property
        def size(self):
            return self._size

        def __reduce__(self):
            return (self.__class__, (self.name, False, self.size))

        def __repr__(self):
            return 'SharedMemory(%r, size=%d)' % (self._name, self._size)

        def close(self):
            if self._buf is not None:
                self._buf.release()             # (BufferError if there are arrays using it)
                self._buf = None
            if getattr(self, '_open', False):
                self._open = False
                w.shm_log.append(('close', image.name, self._name))

        def unlink(self):
            if self._name not in w.shm:
                raise FileNotFoundError(2, 'No such file or directory: ' + repr('/' + self._name))
            del w.shm[self._name]
            w.shm_log.append(('unlink', image.name, self._name))

        def __del__(self):
            try:
                self.close()
            except BaseException:
                pass
    SharedMemory.__module__ = 'multiprocessing.shared_memory'
    SharedMemory.__qualname__ = 'SharedMemory'
    sm.SharedMemory = SharedMemory
    mp.shared_memory = sm
    image.modules['multiprocessing'] = mp
    image.modules['multiprocessing.shared_memory'] = sm
