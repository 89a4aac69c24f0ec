"""Line-level scheduling points inside selected source files (sys.monitoring)."""
import sys
import types

from . import sched as S
from . import image as I

TOOL = 3
_installed = False
_current = None
_codes = {}
hook = None             # called at every line of the selected files, if set


def _walk(code, out):
    out.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def _cb(code, line):
    s = S.STATE
    if hook is not None and code.co_name != '<module>' and s is not None and not s.aborting and not s.finished:
        hook(code, line)
        return
    if s is None or not s.free or s.aborting or s.finished:
        return
    t = s.current
    if t is None or t.atomic:
        return
    if code.co_name == '<module>':
        return
    s.point('%s:%d' % (code.co_filename[-24:], line))


def select(files):
    """Make exactly these modules' lines scheduling points."""
    global _installed, _current
    files = tuple(files)
    if files == _current:
        return
    mon = sys.monitoring
    if not _installed:
        if not files:
            _current = files
            return
        mon.use_tool_id(TOOL, 'mc')
        mon.register_callback(TOOL, mon.events.LINE, _cb)
        _installed = True
    for c in _codes.get(_current, ()):
        mon.set_local_events(TOOL, c, 0)
    cs = []
    for f in files:
        f, _, fn = f.partition('#')
        try:
            code = I.code_of(f)
        except ModuleNotFoundError:
            continue
        al = []
        _walk(code, al)
        for c in al:
            if c.co_name == '<module>':
                continue
            if fn and fn not in c.co_qualname:
                continue
            cs.append(c)
    _codes[files] = cs
    for c in cs:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    _current = files
