"""Exceptions raised at a chosen point inside the code under test.

`Counter` counts line (or instruction) events in frames of the package and raises at the chosen
count, as a signal handler (KeyboardInterrupt) or a failed allocation (MemoryError) would surface
there.  The few instructions with which a `with` block calls `__exit__` are left out: the
interpreter does not look for signals between them.  (Failing allocations through the
interpreter's own test hook was tried and dropped: compiled libraries crash later on.)
"""
import dis
import functools
import os
import sys

from dst import sut

PKG = os.path.realpath(os.path.join(sut.REPO, 'src', 'gempakio')) + os.sep


@functools.cache
def protected(code):
    """Offsets of the instructions that leave `with` blocks."""
    ins = list(dis.get_instructions(code))
    out = set()
    for i, x in enumerate(ins):
        tri = ins[i:i + 4]
        if len(tri) == 4 and all(t.opname == 'LOAD_CONST' and t.argval is None for t in tri[:3]) \
                and tri[3].opname == 'CALL':
            out |= {t.offset for t in tri}
            j = i - 1
            while j >= 0 and ins[j].opname == 'NOP':
                out.add(ins[j].offset)
                j -= 1
    return frozenset(out)


def enable_opcodes():
    """Instruction events are only delivered if some frame asked for them before settrace."""
    f = sys._getframe()
    f.f_trace_opcodes = True
    f.f_trace_opcodes = False


class Counter:
    """Counts events of the package and raises at number `at` (None: only count)."""

    def __init__(self, at=None, exc=KeyboardInterrupt, opcodes=False):
        self.at, self.exc, self.n, self.fired = at, exc, 0, None
        self.kind = 'opcode' if opcodes else 'line'

    def _global(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(PKG) or os.path.realpath(f).startswith(PKG):
            if self.kind == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == self.kind:
            self.n += 1
            if self.at is not None and self.n >= self.at and \
                    frame.f_lasti not in protected(frame.f_code):
                self.fired = f'{frame.f_code.co_name}'
                self.at = None
                raise self.exc('injected')
        return self._local

    def run(self, fn, *a, **k):
        old = sys.gettrace()
        if self.kind == 'opcode':
            enable_opcodes()
        sys.settrace(self._global)
        try:
            return fn(*a, **k)
        finally:
            sys.settrace(old)
