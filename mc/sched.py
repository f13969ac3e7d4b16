"""A controlled scheduler for real Python threads.

Exactly one controlled thread runs at a time.  Scheduling points are the line
events of the package under test (restricted to a set of files) and operations
on locks created by it.  A schedule is the list of points (numbered over the
whole execution) at which the running thread is preempted; after a preemption
the other thread runs until it blocks, finishes or is preempted in turn.
"""

import sys
import threading
import _thread

_real_lock = _thread.allocate_lock


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Scheduler:
    def __init__(
        self, bodies, first, preempt_at, in_scope, occurrences=None, last=False,
        max_points=2000000,
    ):
        # a line counts as a point only the first ``occurrences`` times that a
        # thread executes it; with ``last`` no preemption follows preempt_at,
        # so the rest need not be traced
        self.occurrences = occurrences
        self.last = last
        self.counts = {}
        self.bodies = bodies
        self.first = first
        self.preempt_at = set(preempt_at)
        self.in_scope = in_scope
        self.points = 0
        self.where = []  # (thread, file, line) of each point
        self.sems = [_real_lock() for _ in bodies]
        for sem in self.sems:
            sem.acquire()
        self.state = ["ready"] * len(bodies)
        self.blocked_on = [None] * len(bodies)
        self.results = [None] * len(bodies)
        self.done = _real_lock()
        self.done.acquire()
        self.idents = {}
        self.failure = None
        self.max_points = max_points
        self.taken = 0

    # -- called by controlled threads
    def me(self):
        return self.idents.get(_thread.get_ident())

    def _enabled(self):
        out = []
        for idx, state in enumerate(self.state):
            if state == "ready":
                out.append(idx)
            elif state == "blocked" and self.blocked_on[idx].free():
                out.append(idx)
        return out

    def _switch_to(self, target):
        me = self.me()
        self.sems[target].release()
        if target != me:
            self.sems[me].acquire()
            if self.failure:
                raise Abort()

    def point(self, frame):
        me = self.me()
        if self.last and self.taken >= len(self.preempt_at):
            sys.settrace(None)
            return
        if self.occurrences:
            key = (me, frame.f_code, frame.f_lineno)
            count = self.counts.get(key, 0) + 1
            self.counts[key] = count
            if count > self.occurrences:
                return
        idx = self.points
        self.points += 1
        if self.points > self.max_points:
            self._fail("more than %d scheduling points" % self.max_points)
        self.where.append((me, frame.f_code.co_name, frame.f_lineno))
        if idx in self.preempt_at:
            others = [t for t in self._enabled() if t != me]
            self.taken += 1
            if others:
                self._switch(me, others[0])

    def _switch(self, me, target):
        self.sems[target].release()
        self.sems[me].acquire()
        if self.failure:
            raise Abort()

    def block(self, lock):
        me = self.me()
        self.state[me] = "blocked"
        self.blocked_on[me] = lock
        enabled = [t for t in self._enabled() if t != me]
        if not enabled:
            self._fail("deadlock")
        self._switch(me, enabled[0])
        self.state[me] = "ready"
        self.blocked_on[me] = None

    def _fail(self, message):
        self.failure = message
        for idx, sem in enumerate(self.sems):
            if self.state[idx] != "finished" and idx != self.me():
                sem.release()
        raise Abort()

    def _body(self, idx):
        self.idents[_thread.get_ident()] = idx
        self.sems[idx].acquire()
        if not self.failure:
            sys.settrace(self._trace)
            try:
                self.results[idx] = self.bodies[idx]()
            except Abort:
                self.results[idx] = "aborted"
            except BaseException as exc:
                self.results[idx] = "raised %s: %s" % (type(exc).__name__, exc)
            finally:
                sys.settrace(None)
        self.state[idx] = "finished"
        if self.failure:
            if all(s == "finished" for s in self.state):
                self.done.release()
            return
        enabled = self._enabled()
        if enabled:
            self.sems[enabled[0]].release()
        elif all(s == "finished" for s in self.state):
            self.done.release()
        else:
            self.failure = "deadlock"
            for other, state in enumerate(self.state):
                if state != "finished":
                    self.sems[other].release()

    def _trace(self, frame, event, arg):
        if self.in_scope(frame):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._local

    def run(self):
        global CURRENT
        CURRENT = self
        for idx in range(len(self.bodies)):
            _thread.start_new_thread(self._body, (idx,))
        while len(self.idents) < len(self.bodies):
            pass
        self.sems[self.first].release()
        self.done.acquire()
        CURRENT = None
        return self.results


CURRENT = None


class CoopLock:
    """threading.Lock / RLock whose waiting is visible to the scheduler."""

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if CURRENT is None or CURRENT.me() is None:
                raise Deadlock("lock is held and nothing can release it")
            CURRENT.block(self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


class patched_locks:
    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = CoopLock, CoopRLock

    def __exit__(self, *args):
        threading.Lock, threading.RLock = self.saved
