"""Writes to the standard streams."""
import sys
import threading
import time


def write(chunks):
    for fd, data in chunks:
        f = sys.stdout if fd == 1 else sys.stderr
        f.buffer.write(data)
        f.flush()


def later(chunks, delay=0.0):
    def f():
        if delay:
            time.sleep(delay)
        for c in chunks:
            write([c])
    threading.Thread(target=f, daemon=True).start()


def text(fd, s):
    print(s, file=sys.stdout if fd == 1 else sys.stderr)
