"""Deterministic scheduler for real threads.

Exactly one thread runs at a time; the others wait at their gates.  A trace function counts the
lines (or byte-code instructions) executed inside the package and hands over at the counts the plan
lists, so a plan is one exactly repeatable interleaving.  Locks the package creates are replaced by
locks the scheduler knows.

A plan's switch list holds entries [gap, pick, stall]: after `gap` further events the running
thread is pre-empted and the `pick`-th other runnable thread continues.  With stall > 0 the thread
that was pre-empted is not run again until all others have finished.  With a fourth element, events
at places where the thread has been since it entered the package hardly count, so that statements
outside loops are chosen as often as those inside.
"""
import _thread
import os
import sys
import threading

from dst import sut
from dst.core import Violation

PKG = os.path.realpath(os.path.join(sut.REPO, 'src', 'gempakio')) + os.sep
_real_lock, _real_rlock = _thread.allocate_lock, _thread.RLock
ACTIVE = None           # the scheduler in charge, if any
_inside = {}


def inside(filename):
    """Whether the file belongs to the package."""
    r = _inside.get(filename)
    if r is None:
        r = _inside[filename] = os.path.realpath(filename).startswith(PKG)
    return r


class SimLock:
    """Lock created by the package: blocks through the scheduler when one is active."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner, self.count = None, 0
        self.real = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.current if s and s.is_mine() else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        s = ACTIVE
        if not (s and s.is_mine()):
            return self.real.release()
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
        return None

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.real.locked())

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install():
    """Route locks created by the package to SimLock (call before importing it)."""
    def wants():
        f = sys._getframe(2)
        while f and f.f_code.co_filename == threading.__file__:
            f = f.f_back
        return f is not None and inside(f.f_code.co_filename)

    threading.Lock = lambda: SimLock() if wants() else _real_lock()
    threading.RLock = lambda: SimLock(True) if wants() else _real_rlock()
    threading._allocate_lock = lambda: SimLock() if wants() else _real_lock()


def importing(frame):
    """Whether the frame runs below an import (which holds the interpreter's module lock)."""
    while frame is not None:
        if frame.f_code.co_filename.startswith('<frozen importlib'):
            return True
        frame = frame.f_back
    return False


class Task:
    def __init__(self, k, fn):
        self.k, self.fn = k, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.state = 'ready'
        self.stalled = False
        self.waiting = None
        self.events = 0
        self.seen = set()
        self.value = self.exc = None


class Abort(BaseException):
    """Unwinds the threads of a run that already failed."""


def enable_opcodes():
    """Instruction events are only delivered if some frame asked for them before settrace."""
    f = sys._getframe()
    f.f_trace_opcodes = True
    f.f_trace_opcodes = False


class Scheduler:
    """Runs functions as threads under a switch list."""

    def __init__(self, ctx, switches, opcodes=False, budget=3_000_000):
        self.ctx, self.switches, self.opcodes, self.budget = ctx, switches, opcodes, budget
        self.pos = 0
        self.tasks = []
        self.current = None
        self.left = None
        self.error = None
        self.switched = 0
        self.preempted = 0
        self.trail = []
        self.done = _real_lock()
        self.done.acquire()
        self.ids = {}
        self.fresh = False
        self.load()

    # ---- plan ------------------------------------------------------------------------------
    def load(self):
        more = self.pos < len(self.switches)
        self.left = self.switches[self.pos][0] if more else None
        self.fresh = more and len(self.switches[self.pos]) > 3

    def is_mine(self):
        return self.ids.get(_thread.get_ident()) == self.current

    # ---- tracing ---------------------------------------------------------------------------
    def tracer(self, frame, event, arg):
        if not inside(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        if frame.f_back is None or not inside(frame.f_back.f_code.co_filename):
            self.tasks[self.current].seen.clear()
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            t = self.tasks[self.current]
            t.events += 1
            if self.error is not None:
                raise Abort
            if t.events > self.budget:
                self.fail('no-progress', f'thread {t.k} executed {t.events} steps')
            if self.left is not None:
                if self.fresh:
                    n = len(t.seen)
                    t.seen.add((id(frame.f_code), frame.f_lasti if self.opcodes else frame.f_lineno))
                    self.left -= 1 if len(t.seen) > n else 0.01
                else:
                    self.left -= 1
                if self.left <= 0:
                    pick, stall = self.switches[self.pos][1:3]
                    self.pos += 1
                    self.load()
                    others = [x for x in self.tasks if x.k != t.k and x.state == 'ready'
                              and not x.stalled]
                    if others and not importing(frame):
                        nxt = others[pick % len(others)]
                        if stall:
                            t.stalled = True
                            self.ctx.fault('thread-stall')
                        self.ctx.fault('preemption')
                        self.preempted += 1
                        self.trail.append((t.k, frame.f_code.co_name, nxt.k))
                        self.hand_over(t, nxt)
        return self.local

    # ---- switching -------------------------------------------------------------------------
    def hand_over(self, me, nxt):
        self.switched += 1
        self.current = nxt.k
        nxt.gate.release()
        if me is not None:
            me.gate.acquire()
            if self.error is not None:
                raise Abort

    def fail(self, kind, detail):
        if self.error is None:
            self.error = (kind, detail)
        raise Abort

    def block(self, lock):
        me = self.tasks[self.current]
        me.state, me.waiting = 'blocked', lock
        for t in self.tasks:
            if t.state == 'blocked' and (t.waiting.owner is None):
                t.state, t.waiting = 'ready', None
        ready = [t for t in self.tasks if t.state == 'ready']
        running = [t for t in ready if not t.stalled]
        if not running and ready:
            self.fail('stalled-others', f'thread {me.k} waits for a lock of a stalled thread')
        if not running:
            self.fail('deadlock', 'every thread waits for a lock')
        # wake those whose lock is free again when they are next looked at
        me_owner = [t for t in running if t.k == lock.owner]
        self.hand_over(me, (me_owner or running)[0])
        me.state, me.waiting = 'ready', None

    def finish(self, me):
        me.state = 'done'
        for t in self.tasks:
            if t.state == 'blocked' and (t.waiting.owner is None or self.error):
                t.state, t.waiting = 'ready', None
        ready = [t for t in self.tasks if t.state == 'ready']
        running = [t for t in ready if not t.stalled]
        if not running and ready:
            for t in ready:
                t.stalled = False
            running = ready
        if running:
            self.trail.append((me.k, 'end', running[0].k))
            self.hand_over(None, running[0])
        elif any(t.state == 'blocked' for t in self.tasks):
            if self.error is None:
                self.error = ('deadlock', 'a lock is never released')
            t = next(t for t in self.tasks if t.state == 'blocked')
            t.state = 'ready'
            self.hand_over(None, t)
        else:
            self.done.release()

    def body(self, t):
        self.ids[_thread.get_ident()] = t.k
        t.gate.acquire()
        try:
            if self.error is None:
                sys.settrace(self.tracer)
                try:
                    t.value = t.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:   # noqa: B036
            t.exc = e
        finally:
            sys.settrace(None)
            self.finish(t)

    def run(self, fns, first=0):
        """Run all functions to their end; returns the tasks."""
        global ACTIVE
        self.tasks = [Task(k, f) for k, f in enumerate(fns)]
        if self.opcodes:
            enable_opcodes()
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.tasks]
        ACTIVE = self
        try:
            for th in threads:
                th.start()
            start = self.tasks[first % len(self.tasks)]
            self.current = start.k
            start.gate.release()
            self.done.acquire()
        finally:
            ACTIVE = None
        for th in threads:
            th.join(5)
        for t in self.tasks:
            if t.exc is not None and not isinstance(t.exc, Violation):
                raise t.exc
        for t in self.tasks:
            if t.exc is not None:
                raise t.exc
        if self.error:
            raise Violation(*self.error)
        self.ctx.steps += sum(t.events for t in self.tasks)
        self.ctx.log('schedule', self.switched, [t.events for t in self.tasks])
        self.ctx.mark(tuple(self.trail))
        return self.tasks


def gen_switches(rng, nthreads, tier='quick'):
    """Seeded switch list: bursts of fine interleaving, long runs, and rare stalls."""
    style = rng.weighted([('fine', 3), ('mixed', 4), ('coarse', 3), ('few', 3), ('places', 5)])
    if style == 'places':
        return [[1 + int(rng.expovariate(1.0 / rng.pick([2, 10, 30, 80]))), rng.randrange(8),
                 int(rng.chance(0.03)), 1] if rng.chance(0.7) else
                [1 + int(rng.expovariate(1.0 / rng.pick([3, 30, 300]))), rng.randrange(8), 0]
                for _ in range(rng.pick([3, 10, 40, 120, 120]))]
    n = {'fine': 250, 'mixed': 120, 'coarse': 60, 'few': rng.randrange(1, 5)}[style]
    out = []
    for _ in range(n):
        scale = {'fine': rng.pick([1, 2, 4]), 'mixed': rng.pick([1, 3, 20, 150]),
                 'coarse': rng.pick([30, 150, 600]), 'few': rng.pick([5, 40, 200, 1000, 3000])}[style]
        if style == 'fine' and rng.chance(0.03):
            scale = 400
        gap = 1 + int(rng.expovariate(1.0 / scale))
        out.append([gap, rng.randrange(8), int(rng.chance(0.004 if style != 'few' else 0.15))])
    return out
