"""Cooperative scheduler of real threads: one runs at a time, and the seeded scheduler decides
at every point which one goes on. Used for simulated processes (w_fs) and threads (w_threads)."""
from __future__ import annotations

import _thread
import sys
import threading

_RealThread = threading.Thread
_real_allocate = _thread.allocate_lock
CURRENT = None  # the scheduler of the run


class Crash(BaseException):
    """the process this thread stands for has died"""


class Stuck(BaseException):
    """the run is over and the thread is still waiting"""


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.wake = 0.0
        self.blocked = None  # a predicate: not runnable before it holds
        self.points = 0
        self.dead = False  # has crashed
        self.done = False
        self.error = None
        self.result = None
        self.go = _real_allocate()
        self.go.acquire()


class Sched:
    def __init__(self, rng, switch=0.5, max_steps=20000, max_time=1e6):
        self.rng, self.switch = rng, switch
        self.now = 0.0
        self.steps = 0
        self.tasks = []
        self.cur = None
        self.main = _real_allocate()
        self.main.acquire()
        self.max_steps, self.max_time = max_steps, max_time
        self.stopping = False
        self.stuck = None
        self.switches = 0
        self.on_step = None
        self.by_ident = {}

    def spawn(self, name, fn, at=0.0):
        t = Task(name, fn)
        t.wake = self.now + at
        self.tasks.append(t)
        t.thread = _RealThread(target=self._body, args=(t,), daemon=True, name=name)
        t.started = False
        return t

    def _body(self, t):
        t.go.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not self.stopping:
                t.result = t.fn(t)
        except (Crash, Stuck):
            pass
        except BaseException as e:  # noqa: BLE001
            t.error = e
        finally:
            t.done = True
            self.by_ident.pop(_thread.get_ident(), None)
            self.main.release()

    def here(self):
        return self.by_ident.get(_thread.get_ident())

    # -- called by the threads
    def point(self, force=False):
        """the scheduler may let another thread go first"""
        t = self.here()
        if t is None:
            return
        t.points += 1
        self.steps += 1
        if self.stopping:
            raise Stuck
        if t.dead:
            raise Crash
        if force or self.steps >= self.max_steps or self.rng.random() < self.switch:
            self._yield(t)

    def _yield(self, t):
        self.main.release()
        t.go.acquire()
        if self.stopping:
            raise Stuck
        if t.dead:
            raise Crash

    def sleep(self, dt):
        t = self.here()
        t.wake = self.now + max(0.0, dt)
        self._yield(t)

    def wait(self, pred, timeout=None):
        """until pred() holds; False if the time is over before"""
        t = self.here()
        if pred():
            return True
        t.wake = float("inf") if timeout is None else self.now + timeout
        t.blocked = pred
        try:
            self._yield(t)
        finally:
            t.blocked = None
            t.wake = 0.0
        return pred()

    # -- the driver
    def run(self):
        global CURRENT
        before, CURRENT = CURRENT, self
        try:
            self._run()
        finally:
            CURRENT = before

    def _run(self):
        while True:
            live = [t for t in self.tasks if not t.done]
            if not live:
                break
            ready = [t for t in live
                     if (t.blocked() if t.blocked and t.wake > self.now else t.wake <= self.now)]
            if not ready:
                nxt = min(t.wake for t in live)
                if nxt == float("inf") or nxt > self.max_time:
                    self.stuck = "waiting: " + ", ".join(t.name for t in live)
                    break
                self.now = nxt
                continue
            if self.steps >= self.max_steps:
                self.stuck = "no end: " + ", ".join(t.name for t in live)
                break
            t = ready[0] if len(ready) == 1 else ready[self.rng.randrange(len(ready))]
            if t is not self.cur:
                self.switches += 1
            self.resume(t)
            if self.on_step:
                self.on_step(t)
        self.stopping = True
        for t in self.tasks:
            while not t.done:
                self.resume(t)

    def resume(self, t):
        self.cur = t
        if not t.started:
            t.started = True
            t.thread.start()
        t.go.release()
        self.main.acquire()
        if t.done:
            t.thread.join()


# ------------------------------------------------------------------ locks
def task():
    return CURRENT.here() if CURRENT is not None else None


class SimLock:
    """A lock of the code under test: a scheduled thread that has to wait for it lets the
    others run. It exists once per simulated process."""

    def __init__(self):
        self.held = {}

    def acquire(self, blocking=True, timeout=-1):
        t = task()
        k = getattr(t, "pid", 0)
        if t is not None:
            CURRENT.point()
        if self.held.get(k):
            if not blocking:
                return False
            if t is None:
                raise RuntimeError("deadlock: a lock is held and nobody will release it")
            if not CURRENT.wait(lambda: not self.held.get(k),
                                None if timeout is None or timeout < 0 else timeout):
                return False
        self.held[k] = True
        return True

    def release(self):
        k = getattr(task(), "pid", 0)
        if not self.held.get(k):
            raise RuntimeError("release unlocked lock")
        self.held[k] = False
        if task() is not None:
            CURRENT.point()

    def locked(self):
        return bool(self.held.get(getattr(task(), "pid", 0)))

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = {}


def _for_code_under_test():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        name = f.f_globals.get("__name__", "")
        if name == "reactpy" or name.startswith("reactpy."):
            return True
        if name not in ("threading", "queue", __name__):
            return False
        f = f.f_back
    return False


class _new_lock:  # a class, because annotations may mention it
    def __new__(cls):
        return SimLock() if _for_code_under_test() else _real_allocate()


_real_RLock = threading.RLock


class _new_rlock:
    def __new__(cls):
        return threading._PyRLock() if _for_code_under_test() else _real_RLock()


def install():
    """locks that the code under test makes, also those inside of conditions, events and
    queues, are known to the scheduler"""
    threading.Lock = _new_lock
    threading._allocate_lock = _new_lock
    threading.RLock = _new_rlock
