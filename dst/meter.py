"""Deterministic measure of work: branches, jumps and calls executed inside the package.

Uses sys.monitoring; the callback raises StepLimit once the budget is used up, so an endless loop
in the package ends after the same event in every execution.
"""
import sys

from dst.sched import inside

TOOL = 3


class StepLimit(BaseException):
    """The step budget of a call is used up."""


class Meter:
    """Counts events of the package during `run`; raises StepLimit beyond `limit`."""

    def __init__(self, limit=None):
        self.limit, self.n = limit, 0

    def _event(self, code, *_):
        if not inside(code.co_filename):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise StepLimit(self.n)
        return None

    def run(self, fn, *a, **k):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'meter')
        ev = m.events
        try:
            for e in (ev.BRANCH, ev.JUMP, ev.PY_START):
                m.register_callback(TOOL, e, self._event)
            m.set_events(TOOL, ev.BRANCH | ev.JUMP | ev.PY_START)
            return fn(*a, **k)
        finally:
            m.set_events(TOOL, 0)
            m.free_tool_id(TOOL)
