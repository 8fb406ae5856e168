"""A seeded scheduler for real threads.

Every simulated thread is a real one, but only the holder of the baton runs.
Threads can lose it at *preemption points*: line (or opcode) events of
lambeq's own code, delivered by ``sys.settrace``, and operations on locks that
lambeq creates.  Which points do switch is fixed by the case, so the same case
always gives the same interleaving.

A schedule is a list of preemptions ``[thread, where, which, to]``.  ``where``
and ``which`` are fractions resolved against the trace of the same workload
run sequentially: ``where`` picks one of the distinct source lines thread
``thread`` executed, ``which`` one of its visits to it; the thread then yields
to the runnable thread number ``to`` (modulo).  Picking by line gives rarely
executed code the same chance as loops.  Alternatively ``{"random": q,
"seed": s}`` switches at every point with probability q.
"""
from __future__ import annotations

import os
import random
import sys
import threading

from dst.boot import REPO
from dst.core import HarnessError

ROOT = os.path.join(os.path.realpath(REPO), 'lambeq') + os.sep
_real_lock = threading.Lock
_real_rlock = threading.RLock
CURRENT = None                       # the active Scheduler


class ThreadKilled(BaseException):
    pass


class SimLock:
    """What lambeq's own threading.Lock()/RLock() calls give."""

    def __init__(self, reentrant=False):
        self._lock = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = s.me() if s is not None else None
        if me is None:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking or timeout == 0:
                return False
            s.wait_for(me, self)
            if timeout > 0:
                return self._lock.acquire(False)
        return True

    def release(self):
        self._lock.release()
        s = CURRENT
        if s is not None:
            s.released(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        if self._lock.acquire(False):
            self._lock.release()
            return False
        return True


def install():
    """Locks that lambeq creates are under the scheduler's control."""
    def caller_is_lambeq():
        f = sys._getframe(2)
        return f.f_globals.get('__name__', '').split('.')[0] == 'lambeq'

    def lock():
        return SimLock() if caller_is_lambeq() else _real_lock()

    def rlock():
        return SimLock(True) if caller_is_lambeq() else _real_rlock()
    threading.Lock = lock
    threading.RLock = rlock


class Thread:
    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        self.go = _real_lock()
        self.go.acquire()
        self.done = False
        self.blocked = None
        self.result = None
        self.error = None
        self.points = 0
        self.visits = {}


class Scheduler:
    STALL_S = 60                   # wall clock, no preemption point reached
    MAX_SWITCHES = 20000           # of a random schedule

    def __init__(self, fns, schedule=None, opcodes=False, order=None,
                 focus=None, record=None, avoid=None):
        self.threads = [Thread(i, f) for i, f in enumerate(fns)]
        self.opcodes = opcodes
        self.order = order or []
        self.focus = tuple(focus or ()) or None
        self.avoid = avoid             # no switch below frames of this path
        self.record = record           # {thread: {(file, line): count}}
        self.schedule = schedule
        self.rand = None
        self.preempt = {}
        if isinstance(schedule, dict):
            self.rand = random.Random(schedule['seed'])
            self.q = schedule['random']
        elif schedule and record is None:
            raise HarnessError('explicit preemptions need a profile')
        self.main = _real_lock()
        self.main.acquire()
        self.cur = None
        self.switches = []
        self.total = 0
        self.deadlock = False
        self.stop = False

    # -- resolution of fractional preemptions against a sequential profile
    def resolve(self, profile):
        for item in self.schedule or []:
            if not isinstance(self.schedule, list):
                break
            t, where, which, to = item
            t %= len(self.threads)
            locs = sorted(profile.get(t, {}))
            if not locs:
                continue
            loc = locs[min(int(where * len(locs)), len(locs) - 1)]
            n = profile[t][loc]
            k = min(int(which * n), n - 1)
            self.preempt[(t, loc, k)] = to

    def me(self):
        cur = self.cur
        if cur is not None and threading.get_ident() == cur.ident:
            return cur
        return None

    # -- tracing
    def _trace(self, th):
        focus = self.focus

        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.point(th, frame)
            return local

        def glob(frame, event, arg):
            if event != 'call':
                return None
            code = frame.f_code
            if not code.co_filename.startswith(ROOT):
                return None
            if code.co_name in ('<module>',):
                return None
            if focus and not code.co_filename.endswith(focus):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            self.point(th, frame)
            return local
        return glob

    def point(self, th, frame):
        if self.stop:
            raise ThreadKilled()
        code = frame.f_code
        loc = (code.co_filename[len(ROOT):], frame.f_lineno or 0,
               frame.f_lasti if self.opcodes else 0)
        k = th.visits.get(loc, 0)
        th.visits[loc] = k + 1
        th.points += 1
        self.total += 1
        to = None
        if self.rand is not None:
            if (len(self.switches) < self.MAX_SWITCHES
                    and self.rand.random() < self.q):
                to = self.rand.randrange(1 << 16)
        elif self.preempt:
            to = self.preempt.pop((th.n, loc, k), None)
        if to is not None and self.avoid and self._below(frame):
            to = None
        if to is not None:
            others = [t for t in self.threads
                      if not t.done and t.blocked is None and t is not th]
            if others:
                nxt = others[to % len(others)]
                self.switches.append((th.n, loc[0], loc[1], nxt.n))
                self._switch(th, nxt)

    def _below(self, frame):
        """Is the code called back by a library that may hold locks?"""
        frame = getattr(frame, 'f_back', None)
        while frame is not None:
            if self.avoid in frame.f_code.co_filename:
                return True
            frame = frame.f_back
        return False

    def _switch(self, th, nxt):
        self.cur = nxt
        nxt.go.release()
        th.go.acquire()
        if self.stop:
            raise ThreadKilled()

    def wait_for(self, th, lock):
        th.blocked = lock
        nxt = self._pick()
        if nxt is None:
            self.deadlock = True
            self.stop = True
            th.blocked = None
            raise ThreadKilled()
        self.switches.append((th.n, 'lock', 0, nxt.n))
        self._switch(th, nxt)

    def released(self, lock):
        for t in self.threads:
            if t.blocked is lock:
                t.blocked = None

    def _pick(self):
        ready = [t for t in self.threads if not t.done and t.blocked is None]
        if not ready:
            return None
        for n in self.order:
            t = self.threads[n % len(self.threads)]
            if t in ready:
                return t
        return ready[0]

    def _body(self, th):
        th.go.acquire()
        th.ident = threading.get_ident()
        sys.settrace(self._trace(th))
        try:
            if not self.stop:
                th.result = th.fn()
        except ThreadKilled:
            pass
        except BaseException as e:
            th.error = e
        finally:
            sys.settrace(None)
            th.done = True
            nxt = self._pick() if not self.stop else None
            if nxt is not None:
                self.cur = nxt
                nxt.go.release()
            elif all(t.done for t in self.threads):
                self.main.release()
            elif self.stop:
                for t in self.threads:
                    if not t.done:
                        t.blocked = None
                        t.go.release()
                        break
            else:
                self.deadlock = True
                self.stop = True
                for t in self.threads:
                    if not t.done:
                        t.blocked = None
                        t.go.release()
                        break

    def run(self):
        global CURRENT
        CURRENT = self
        reals = []
        try:
            for t in self.threads:
                t.ident = None
                rt = threading.Thread(target=self._body, args=(t,),
                                      daemon=True)
                rt.start()
                reals.append(rt)
            first = self._pick()
            self.cur = first
            first.go.release()
            total = -1
            while not self.main.acquire(timeout=self.STALL_S):
                if self.total == total:
                    self.stop = True
                    raise HarnessError(
                        f'threads made no progress (running {self.cur.n})')
                total = self.total
            for rt in reals:
                rt.join(self.STALL_S)
        finally:
            CURRENT = None
        return self


def sequential(fns, opcodes=False, order=None, focus=None):
    """Runs the threads one after the other; returns the scheduler, whose
    threads carry results and the profile used by ``resolve``.  ``focus``
    limits preemption points to source files with one of these endings."""
    return Scheduler(fns, None, opcodes, order, focus).run()


def concurrent(fns, schedule, profile, opcodes=False, order=None, focus=None,
               avoid=None):
    s = Scheduler(fns, schedule, opcodes, order, focus,
                  record=profile if profile is not None else {}, avoid=avoid)
    if isinstance(schedule, list):
        s.resolve(profile or {})
    return s.run()


def profile_of(s):
    return {t.n: dict(t.visits) for t in s.threads}


def gen_schedule(r, nthreads):
    """Draws a schedule."""
    if r.random() < 0.15:
        return {'random': r.choice([0.5, 0.2, 0.05, 0.02, 0.01]),
                'seed': r.randrange(1 << 30)}
    return [[r.randrange(nthreads), round(r.random(), 4),
             round(r.random() ** 2, 4), r.randrange(8)]
            for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6]))]


class _Frame:
    """Stands for a place in the harness where a thread may be preempted."""

    def __init__(self, tag):
        self.f_code = self
        self.co_filename = ROOT + '~' + tag
        self.f_lineno = 0
        self.f_lasti = 0


def touch(tag):
    """A preemption point in user code (the body of a block, a callback)."""
    s = CURRENT
    if s is not None:
        th = s.me()
        if th is not None:
            s.point(th, _Frame(tag))
