"""A virtual-time asyncio event loop under full control of the simulator.

* time is virtual: it advances only when nothing is ready, straight to the next timer;
* ready callbacks run in FIFO order, which asyncio guarantees (permuting them would
  produce executions no real loop can produce); interleavings are varied by *when*
  stimuli, sends, timers and faults happen;
* task hashes are drawn from the run's PRNG, so code that iterates a ``set`` of tasks
  sees a seed-determined order, as it sees an address-determined order in reality;
* every callback executed is one "step"; steps are counted and digested.
"""
from __future__ import annotations

import asyncio
import collections
import contextvars
import heapq
import sys
import weakref
from asyncio import events


class Quiescent(Exception):
    pass


class StepLimit(BaseException):
    """the run did not become idle within its step budget"""


class SimTask(asyncio.Task):
    """its hash is seed-determined, so the order of sets of tasks is too"""

    def __init__(self, coro, *, sim_hash, **kw):
        self._sim_hash = sim_hash
        super().__init__(coro, **kw)

    def __hash__(self):
        return self._sim_hash

    def __eq__(self, other):
        return self is other


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, rng, step_limit=200_000):
        super().__init__()
        self._vtime = 0.0
        self.rng = rng
        self.steps = 0
        self.step_limit = step_limit
        self.idle_hooks = []
        self.tasks: list[weakref.ref] = []
        self.errors: list[dict] = []
        self.foreign = collections.deque()
        self._clock_resolution = 1e-9
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._on_exc)
        self.task_tag = contextvars.ContextVar("task_tag", default="session")
        self.ntasks = 0
        self.slow_callback_duration = 1e9
        self.post_step = None

    # -- seams -------------------------------------------------------------
    def time(self):
        return self._vtime

    def _factory(self, loop, coro, context=None, **kw):
        t = SimTask(
            coro,
            sim_hash=self.rng.getrandbits(60),
            loop=loop,
            context=context,
            **kw,
        )
        t._sim_tag = (context or contextvars.copy_context()).get(self.task_tag)
        self.ntasks += 1
        t._sim_no = self.ntasks
        self.tasks.append(weakref.ref(t))
        return t

    def live_tasks(self, tag):
        out = []
        keep = []
        for r in self.tasks:
            t = r()
            if t is None or t.done():
                continue
            keep.append(r)
            if t._sim_tag == tag:
                out.append(t)
        self.tasks = keep
        return out

    def _on_exc(self, loop, ctx):
        self.errors.append(ctx)

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        h = events.Handle(callback, args, self, context)
        self._ready.append(h)
        return h

    def run_in_executor(self, executor, func, *args):
        """inline stand-in for worker threads: runs the function at its own step"""
        fut = self.create_future()

        def go():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as e:  # noqa: BLE001
                if not fut.cancelled():
                    fut.set_exception(e)
            else:
                if not fut.cancelled():
                    fut.set_result(r)

        self.call_later(self.rng.choice((0.0, 0.0005)), go)
        return fut

    # -- core --------------------------------------------------------------
    def _run_once(self):
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(sched)
            h._scheduled = False
        if not self._ready and not self._stopping:
            if sched:
                when = sched[0]._when
                if when > self._vtime:
                    self._vtime = when
            else:
                for hook in list(self.idle_hooks):
                    if hook():
                        break
                if not self._ready and not self._stopping:
                    if sched:
                        return
                    raise Quiescent
        end = self._vtime + 1e-9
        while sched and sched[0]._when < end:
            h = heapq.heappop(sched)
            h._scheduled = False
            if not h._cancelled:
                self._ready.append(h)
            else:
                self._timer_cancelled_count -= 1
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            self.steps += 1
            if self.steps > self.step_limit:
                raise StepLimit
            h._run()
            if self.post_step is not None:
                self.post_step()
        h = None

    def run_to_idle(self):
        """run until there is nothing ready and no timer"""
        try:
            self.run_forever()
        except Quiescent:
            pass

    def dispose(self):
        """drop everything without running it further"""
        sys.unraisablehook = lambda u: None
        self._on_exc = lambda loop, ctx: None
        for r in self.tasks:
            t = r()
            if t is not None:
                t._log_destroy_pending = False
                t._log_traceback = False
        self._ready.clear()
        self._scheduled.clear()
        self._closed = True
