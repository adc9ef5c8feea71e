"""Interruptions: an asynchronous exception raised at a chosen executed line of the library.

A real KeyboardInterrupt or MemoryError arrives between two bytecodes; here the n-th LINE
event inside the library's source raises it, so that a plan decides where.
"""
import contextlib
import sys

from . import lib
from .core import Violation

TOOL = 3
EXCEPTIONS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Clock:
    """Counts executed library lines; raises at the planned one"""

    def __init__(self):
        self.count = 0
        self.at = None
        self.exc = None
        self.fired = None

    def _jump(self, code, _offset, _to):
        return self._line(code, None)

    def _line(self, code, _where):
        if not code.co_filename.startswith(lib.SRC):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.at is not None and self.count > self.at:
            self.at = None
            self.fired = f"{code.co_name}"
            raise EXCEPTIONS[self.exc]("injected")
        return None


@contextlib.contextmanager
def clock(at=None, exc="KeyboardInterrupt", jumps=False):
    """Count lines; raise `exc` before line number `at` (counting from 0); `jumps` counts rounds of loops on one line too"""
    mon = sys.monitoring
    state = Clock()
    state.at, state.exc = at, exc
    mon.use_tool_id(TOOL, "arsim-interrupt")
    mon.register_callback(TOOL, mon.events.LINE, state._line)
    mon.register_callback(TOOL, mon.events.JUMP, state._jump)
    mon.set_events(TOOL, mon.events.LINE | (mon.events.JUMP if jumps else 0))
    try:
        yield state
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.JUMP, None)
        mon.free_tool_id(TOOL)


@contextlib.contextmanager
def bounded(limit, what):
    """Progress: what happens inside finishes within `limit` executed lines and jumps of the library (None: no limit)"""
    with clock(limit, "KeyboardInterrupt", True) as state:
        try:
            yield state
        except BaseException as exc:
            if state.fired is None:
                raise
            raise Violation("no-progress", f"{what}: not finished after {limit} steps") from exc
        if state.fired is not None:
            raise Violation("no-progress", f"{what}: not finished after {limit} steps")
