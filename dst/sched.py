"""Deterministic thread scheduler.

Tasks are real threads of which exactly one runs at any time (a baton).  Every
executed source line of the code under test is a possible switch point; a PRNG
decides at which points the baton goes to which task.  Locks created by the
code under test are replaced by locks that hand the baton on instead of
blocking.
"""
import dis
import os
import random
import sys
import threading

from . import kernel

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = None            # the active Scheduler
_files = {}


def in_repo(filename):
    r = _files.get(filename)
    if r is None:
        r = os.path.realpath(filename).startswith(kernel.REPO_SRC + os.sep)
        _files[filename] = r
    return r


class SimLock:
    """Lock of the code under test."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._depth = 0
        self._native = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = threading.get_ident()
        if s is None or me not in s.by_ident:
            return self._native.acquire(blocking, timeout)
        spins = 0
        while self._owner is not None and not (self._re and
                                               self._owner == me):
            if not blocking:
                return False
            spins += 1
            if spins > 10000:
                raise Deadlock('lock is never released')
            s.yield_(forced=True)
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        s = _current
        if s is None or threading.get_ident() not in s.by_ident:
            return self._native.release()
        self._depth -= 1
        if self._depth <= 0:
            self._owner = None
            self._depth = 0

    def locked(self):
        return self._owner is not None or (
            not self._re and self._native.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Deadlock(Exception):
    pass


def io_point(kind):
    s = _current
    if s is not None and threading.get_ident() in s.by_ident:
        s.point(kind)


def _caller_in_repo():
    f = sys._getframe(2)
    return in_repo(f.f_code.co_filename)


def install_lock_factories():
    def lock():
        return SimLock() if _caller_in_repo() else _real_lock()

    def rlock():
        return SimLock(True) if _caller_in_repo() else _real_rlock()
    threading.Lock = lock
    threading.RLock = rlock


class Task:
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.result = None
        self.error = None
        self.done = False
        self.go = _real_lock()
        self.go.acquire()
        self.thread = None


class Scheduler:
    """run(tasks) -> executes callables under a seeded interleaving."""

    def __init__(self, ctx, seed, rate=0.05, max_steps=400000, bursts=True):
        self.ctx = ctx
        self.rng = random.Random(kernel.derive('sched', seed))
        self.rate = rate
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.finished = _real_lock()
        self.finished.acquire()
        self.sites = set()
        self.bursts = bursts
        self.next_switch = 0
        self.hist = []

    def spawn(self, name, fn):
        self.tasks.append(Task(self, name, fn))

    # -- switching -----------------------------------------------------------
    def _gap(self):
        """Number of lines until the next switch."""
        r = self.rng.random()
        if self.bursts and r < 0.3:
            return self.rng.randint(1, 3)
        return 1 + int(self.rng.expovariate(self.rate))

    def _runnable(self):
        return [t for t in self.tasks if not t.done]

    def yield_(self, forced=False):
        me = self.current
        others = [t for t in self._runnable() if t is not me]
        self.next_switch = self.steps + self._gap()
        if not others:
            return
        nxt = others[self.rng.randrange(len(others))]
        self.switches += 1
        self.hist.append((self.steps, nxt.name))
        self.current = nxt
        nxt.go.release()
        me.go.acquire()

    def point(self, site):
        """A switch point outside the source lines (an I/O operation)."""
        self.steps += 1
        if self.steps <= self.max_steps and self.steps >= self.next_switch:
            self.sites.add((site, 0))
            self.yield_()

    def _trace(self, frame, event, arg):
        if not in_repo(frame.f_code.co_filename):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.steps += 1
            if self.steps > self.max_steps:
                return None
            if self.steps >= self.next_switch:
                self.sites.add((frame.f_code.co_name, frame.f_lineno))
                self.yield_()
        return self._local

    def _body(self, task):
        task.go.acquire()
        self.by_ident[threading.get_ident()] = task
        sys.settrace(self._trace)
        try:
            task.result = task.fn()
        except BaseException as e:
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            rest = self._runnable()
            if rest:
                nxt = rest[self.rng.randrange(len(rest))]
                self.next_switch = self.steps + self._gap()
                self.current = nxt
                nxt.go.release()
            else:
                self.finished.release()

    def run(self):
        global _current
        _current = self
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=self._body, args=(t,),
                                            daemon=True, name=t.name)
                t.thread.start()
            first = self.tasks[self.rng.randrange(len(self.tasks))]
            self.current = first
            self.next_switch = self._gap()
            first.go.release()
            # a real deadlock of the code under test ends as 'hang'
            self.finished.acquire()
            for t in self.tasks:
                t.thread.join()
        finally:
            _current = None
        self.ctx.log('schedule', self.switches, self.hist[:200])
        self.ctx.probe('context switches', self.switches)
        self.ctx.probe('traced lines', self.steps)
        if self.switches:
            self.ctx.nontrivial = True
        return self.tasks


_cleanups = {}


def cleanup_starts(code):
    """Offsets where a protected block was just left normally, or is about to
    be entered: the interpreter runs __exit__ or the finally clause without
    looking at signals first, so nothing is interrupted there (`with lock:`
    never leaks the lock)."""
    r = _cleanups.get(code)
    if r is None:
        ends = {e.end for e in dis._parse_exception_table(code)}
        r = _cleanups[code] = set()
        left = False
        for i in dis.get_instructions(code):
            left = left or i.offset in ends
            if left or i.opname == 'NOP':
                r.add(i.offset)
            if i.opname not in ('NOP', 'END_FOR', 'POP_TOP'):
                left = False
    return r


class AsyncInjector:
    """Raises an exception at the k-th executed line of the code under test
    (a signal handler's KeyboardInterrupt, or a failing allocation), or at the
    next line where an interrupt can be delivered."""

    def __init__(self, ctx, at, exc):
        self.ctx = ctx
        self.at = at
        self.exc = exc
        self.n = 0
        self.fired = None

    def _trace(self, frame, event, arg):
        if not in_repo(frame.f_code.co_filename):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.at is not None and self.n - 1 >= self.at and \
                    frame.f_lasti not in cleanup_starts(frame.f_code):
                self.fired = (frame.f_code.co_name, frame.f_lineno)
                self.ctx.fault('async %s' % self.exc.__name__)
                sys.settrace(None)
                frame.f_trace = None
                raise self.exc('injected')
        return self._local

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
