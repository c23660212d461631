From 99f2774a89494bc36abdb54ea36c22784c90c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 01/64] fix: use_memo no longer pairs new dependencies with the
 old value when the computation raises

---
 src/reactpy/core/hooks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5aacbf5..def5295 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -508,10 +508,8 @@ def use_memo(
     if memo.empty():
         # we need to initialize on the first run
         changed = True
-        memo.deps = () if dependencies is None else dependencies
     elif dependencies is None:
         changed = True
-        memo.deps = ()
     elif (
         len(memo.deps) != len(dependencies)
         # if deps are same length check identity for each item
@@ -520,7 +518,6 @@ def use_memo(
             for current, new in zip(memo.deps, dependencies, strict=False)
         )
     ):
-        memo.deps = dependencies
         changed = True
     else:
         changed = False
@@ -529,6 +526,8 @@ def use_memo(
 
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
+            # only remember the dependencies once their value has been computed
+            memo.deps = () if dependencies is None else dependencies
             return current_value
 
     else:
-- 
2.43.0


From 2a22204d3c5fc717534e7689929f6995bd0eab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 02/64] fix: a component whose first render failed part way can
 use its hooks when it renders again

---
 src/reactpy/core/_life_cycle_hook.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index cf77742..8c62dcd 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -139,7 +139,6 @@ class LifeCycleHook:
         "_effect_stops",
         "_effect_tasks",
         "_render_access",
-        "_rendered_atleast_once",
         "_schedule_render_callback",
         "_scheduled_render",
         "_state",
@@ -155,7 +154,6 @@ class LifeCycleHook:
         self._context_providers: dict[Context[Any], ContextProvider[Any]] = {}
         self._schedule_render_callback = schedule_render
         self._scheduled_render = False
-        self._rendered_atleast_once = False
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
@@ -177,12 +175,12 @@ class LifeCycleHook:
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
 
-        If this hook has not yet rendered, the state is appended to the state tuple.
+        If this state has not been used yet, it is appended to the state tuple.
         Otherwise, the state is retrieved from the tuple. This allows state to be
-        preserved across renders.
+        preserved across renders, including ones that failed part way through.
         """
-        if not self._rendered_atleast_once:
-            # since we're not initialized yet we're just appending state
+        if self._current_state_index >= len(self._state):
+            # since it's not initialized yet we're just appending state
             result = function()
             self._state.append(result)
         else:
@@ -227,7 +225,6 @@ class LifeCycleHook:
     async def affect_component_did_render(self) -> None:
         """The component completed a render"""
         self.unset_current()
-        self._rendered_atleast_once = True
         self._current_state_index = 0
         self._render_access.release()
         del self.component
-- 
2.43.0


From fc4babe1db0476f414479e142b5ba1d52c69f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 03/64] fix: effect runs are stopped, cleaned up and forgotten
 one by one

Runs of one async effect no longer overlap, each run's clean-up runs once even if
another effect or clean-up raises, replaced runs leave no task behind, and unmounting
waits for every effect.
---
 src/reactpy/core/_life_cycle_hook.py | 41 ++++++++-----
 src/reactpy/core/hooks.py            | 91 ++++++++++++++--------------
 2 files changed, 69 insertions(+), 63 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 8c62dcd..91dcb1d 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Event, Task, create_task, gather
+from asyncio import Event, Task, create_task, wait
 from collections.abc import Callable
 from contextvars import ContextVar, Token
 from typing import Any, Protocol, TypeVar
@@ -136,12 +136,12 @@ class LifeCycleHook:
         "_context_providers",
         "_current_state_index",
         "_effect_funcs",
-        "_effect_stops",
         "_effect_tasks",
         "_render_access",
         "_schedule_render_callback",
         "_scheduled_render",
         "_state",
+        "_unmounted",
         "component",
     )
 
@@ -157,8 +157,8 @@ class LifeCycleHook:
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
-        self._effect_tasks: list[Task[None]] = []
-        self._effect_stops: list[Event] = []
+        self._effect_tasks: dict[Task[None], Event] = {}
+        self._unmounted = False
         self._render_access = Semaphore(1)  # ensure only one render at a time
 
     def schedule_render(self) -> None:
@@ -231,22 +231,31 @@ class LifeCycleHook:
 
     async def affect_layout_did_render(self) -> None:
         """The layout completed a render"""
-        stop = Event()
-        self._effect_stops.append(stop)
-        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)
-        self._effect_funcs.clear()
+        effect_funcs, self._effect_funcs = self._effect_funcs, []
+        if self._unmounted:
+            return
+        for effect_func in effect_funcs:
+            stop = Event()
+            task = create_task(effect_func(stop))
+            self._effect_tasks[task] = stop
+            task.add_done_callback(self._effect_ended)
+
+    def _effect_ended(self, task: Task[None]) -> None:
+        """Forget about an effect that has ended"""
+        self._effect_tasks.pop(task, None)
+        if not task.cancelled() and (error := task.exception()):
+            logger.error("Error in effect", exc_info=error)
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
-        for stop in self._effect_stops:
+        self._unmounted = True
+        self._effect_funcs.clear()
+        for stop in self._effect_tasks.values():
             stop.set()
-        self._effect_stops.clear()
-        try:
-            await gather(*self._effect_tasks)
-        except Exception:
-            logger.exception("Error in effect")
-        finally:
-            self._effect_tasks.clear()
+        # Wait for all effects to end, without cancelling those which are still
+        # cleaning up if this is itself cancelled.
+        while self._effect_tasks:
+            await wait(self._effect_tasks)
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index def5295..061010d 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -146,6 +146,7 @@ def use_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
+    current_stop: Ref[asyncio.Event | None] = use_ref(None)
 
     def decorator(func: _SyncEffectFunc) -> None:
         if inspect.iscoroutinefunction(func):
@@ -155,6 +156,11 @@ def use_effect(
             )
 
         async def effect(stop: asyncio.Event) -> None:
+            # This run replaces the previous one, so that one's task can end
+            if current_stop.current:
+                current_stop.current.set()
+            current_stop.current = stop
+
             run_effect_cleanup(cleanup_func)
 
             # Execute the effect and store the clean-up function
@@ -165,7 +171,8 @@ def use_effect(
 
             # Run the clean-up function when the effect is stopped,
             # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            if current_stop.current is stop:
+                run_effect_cleanup(cleanup_func)
 
         return memoize(lambda: hook.add_effect(effect))
 
@@ -227,60 +234,47 @@ def use_async_effect(
     hook = HOOK_STACK.current_hook()
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
-    cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
-    pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
+    current_stop: Ref[asyncio.Event | None] = use_ref(None)
+    run_lock = _use_const(asyncio.Lock)
 
     def decorator(func: _AsyncEffectFunc) -> None:
         async def effect(stop: asyncio.Event) -> None:
-            # Make sure we always clean up the previous effect's resources
-            if pending_task.current:
-                previous_task = pending_task.current
-                if not shield:
-                    previous_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await previous_task
-                if pending_task.current is previous_task:
-                    pending_task.current = None
-
-            run_effect_cleanup(cleanup_func)
-
-            # Execute the effect and store the clean-up function.
-            # We run this in a task so it can be cancelled if the stop signal
-            # is set before the effect completes.
-            task = asyncio.create_task(func())
-            pending_task.current = task
-
-            # Wait for either the effect to complete or the stop signal
-            stop_task = asyncio.create_task(stop.wait())
-            done, _ = await asyncio.wait(
-                [task, stop_task],
-                return_when=asyncio.FIRST_COMPLETED,
-            )
-
-            # If the effect completed first, store the cleanup function
-            if task in done:
-                pending_task.current = None
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = task.result()
-                # Cancel the stop task since we don't need it anymore
+            # This run replaces the previous one, so tell that one to stop
+            if current_stop.current:
+                current_stop.current.set()
+            current_stop.current = stop
+
+            # Make sure the previous run has ended and its resources were cleaned up
+            async with run_lock:
+                # Nothing to do if this run was stopped before it could start
+                if stop.is_set():
+                    return
+
+                # Execute the effect. We run this in a task so it can be cancelled
+                # if the stop signal is set before the effect completes.
+                task = asyncio.create_task(func())
+
+                # Wait for either the effect to complete or the stop signal
+                stop_task = asyncio.create_task(stop.wait())
+                await asyncio.wait(
+                    [task, stop_task],
+                    return_when=asyncio.FIRST_COMPLETED,
+                )
                 stop_task.cancel()
                 with contextlib.suppress(asyncio.CancelledError):
                     await stop_task
-                # Now wait for the stop signal to run cleanup
-                await stop.wait()
-            # Stop signal came first - cancel the effect task
-            else:
+
                 # Prevent task cancellation if the user enabled shielding
-                if not shield:
+                if not task.done() and not shield:
                     task.cancel()
+
+                cleanup_func: Ref[_EffectCleanFunc | None] = Ref(None)
                 with contextlib.suppress(asyncio.CancelledError):
                     cleanup_func.current = await task
-                if pending_task.current is task:
-                    pending_task.current = None
 
-            # Run the clean-up function when the effect is stopped,
-            # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+                # Run the clean-up function when the effect is stopped
+                await stop.wait()
+                run_effect_cleanup(cleanup_func)
 
         return memoize(lambda: hook.add_effect(effect))
 
@@ -644,6 +638,9 @@ def strictly_equal(x: Any, y: Any) -> bool:
 
 
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
-    if cleanup_func.current:
-        cleanup_func.current()
-        cleanup_func.current = None
+    cleanup, cleanup_func.current = cleanup_func.current, None
+    if cleanup:
+        try:
+            cleanup()
+        except Exception:
+            logger.exception("Error in effect")
-- 
2.43.0


From 1b56dc3249a7c703d5d845e57c80dc1ddb04542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 04/64] fix: related renders run one at a time and in order,
 and leaving a layout releases everything

With asynchronous rendering, renders of a component and of its ancestors or
descendants ran concurrently and their updates were returned in any order, so clients
received stale updates or paths that do not exist. Leaving the layout stopped at the
first failing task and did not wait for or unmount what a cancelled render left.
---
 src/reactpy/core/layout.py | 163 ++++++++++++++++++++++++-------------
 1 file changed, 106 insertions(+), 57 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 18253aa..e560fd9 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from asyncio import (
-    FIRST_COMPLETED,
     CancelledError,
     Queue,
     Task,
@@ -11,7 +10,7 @@ from asyncio import (
     sleep,
     wait,
 )
-from collections import Counter
+from collections import Counter, deque
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
@@ -28,7 +27,7 @@ from typing import (
 from uuid import uuid4
 from weakref import ref as weakref
 
-from anyio import Semaphore
+from anyio import CancelScope, Semaphore
 
 from reactpy.config import (
     REACTPY_ASYNC_RENDERING,
@@ -66,20 +65,23 @@ class Layout(BaseLayout):
 
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
+        self._closing = False
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
-        self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
+        self._render_tasks: set[Task[LayoutUpdateMessage | None]] = set()
         self._render_tasks_by_id: dict[
-            _LifeCycleStateId, Task[LayoutUpdateMessage]
+            _LifeCycleStateId, Task[LayoutUpdateMessage | None]
         ] = {}
         self._render_tasks_ready: Semaphore = Semaphore(0)
-        # Maps a running render task back to the component it belongs to.
-        # Used by the stale-render detection in `_parallel_render` to drop
-        # out-of-order completions when async rendering is enabled and a
-        # newer render for the same component has already been scheduled.
-        self._render_task_to_lcs_id: dict[
-            Task[LayoutUpdateMessage], _LifeCycleStateId
+        # Updates that have been rendered but not yet been returned by `render()`, in
+        # the order in which they were completed.
+        self._render_tasks_completed: deque[Task[LayoutUpdateMessage | None]] = deque()
+        # Maps an unfinished render task to the life cycle state IDs on the path from
+        # the root to the component it renders. A component and its ancestors and
+        # descendants are rendered one at a time, in the order they were scheduled.
+        self._render_task_paths: dict[
+            Task[LayoutUpdateMessage | None], tuple[_LifeCycleStateId, ...]
         ] = {}
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
@@ -102,19 +104,21 @@ class Layout(BaseLayout):
     ) -> None:
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
-
-        for t in self._render_tasks:
-            t.cancel()
-            with suppress(CancelledError):
-                await t
-
-        for t in self._event_processing_tasks.values():
-            t.cancel()
-            with suppress(CancelledError):
-                await t
-
-        await self._unmount_model_states([root_model_state])
-        await self._rendering_queue.close()
+        self._closing = True  # from now on nothing is scheduled any more
+
+        with CancelScope(shield=True):
+            tasks = {*self._render_tasks, *self._event_processing_tasks.values()}
+            for t in tasks:
+                t.cancel()
+            if tasks:
+                await wait(tasks)
+
+            await self._unmount_model_states([root_model_state])
+            # a render that was cancelled part way may have left components behind
+            await self._unmount_model_states(
+                list(self._model_states_by_life_cycle_state_id.values())
+            )
+            await self._rendering_queue.close()
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
@@ -122,7 +126,8 @@ class Layout(BaseLayout):
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
-        del self._render_task_to_lcs_id
+        del self._render_tasks_completed
+        del self._render_task_paths
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
@@ -152,7 +157,7 @@ class Layout(BaseLayout):
     async def _process_event_queue(
         self, target: str, queue: Queue[LayoutEventMessage | dict[str, Any]]
     ) -> None:
-        while True:
+        while not self._closing:
             event = await queue.get()
 
             # Record the client-assigned event sequence number (if any)
@@ -211,20 +216,27 @@ class Layout(BaseLayout):
 
     async def _parallel_render(self) -> LayoutUpdateMessage:
         """Await to fetch the first completed render within our asyncio task group."""
-        while True:
-            await self._render_tasks_ready.acquire()
+        await self._render_tasks_ready.acquire()
+        update_task = self._render_tasks_completed.popleft()
+        self._render_tasks.discard(update_task)
+        return cast(LayoutUpdateMessage, update_task.result())
 
-            if not self._render_tasks:  # nocov
-                continue
-
-            done, _ = await wait(self._render_tasks, return_when=FIRST_COMPLETED)
-            update_task: Task[LayoutUpdateMessage] = done.pop()
-            self._render_tasks.discard(update_task)
-
-            try:
-                return update_task.result()
-            except CancelledError:  # nocov
-                continue
+    async def _create_layout_update_in_turn(
+        self,
+        lcs_id: _LifeCycleStateId,
+        earlier_tasks: list[Task[LayoutUpdateMessage | None]],
+    ) -> LayoutUpdateMessage | None:
+        """Render a component once the given tasks are done, if it is still mounted"""
+        if earlier_tasks:
+            await wait(earlier_tasks)
+        model_state = self._model_states_by_life_cycle_state_id.get(lcs_id)
+        if model_state is None:
+            logger.debug(
+                "Did not render component with model state ID "
+                f"{lcs_id!r} - component already unmounted"
+            )
+            return None
+        return await self._create_layout_update(model_state)
 
     async def _create_layout_update(
         self, old_state: _ModelState
@@ -238,14 +250,19 @@ class Layout(BaseLayout):
                 parent = None
 
             async with AsyncExitStack() as exit_stack:
-                new_state = await self._render_component(
-                    exit_stack,
-                    old_state,
-                    parent,
-                    old_state.index,
-                    old_state.key,
-                    component,
-                )
+                try:
+                    new_state = await self._render_component(
+                        exit_stack,
+                        old_state,
+                        parent,
+                        old_state.index,
+                        old_state.key,
+                        component,
+                    )
+                except BaseException:
+                    # don't start the effects of an incomplete render
+                    exit_stack.pop_all()
+                    raise
 
             if parent is not None:
                 parent.children_by_key[new_state.key] = new_state
@@ -315,16 +332,11 @@ class Layout(BaseLayout):
         self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state
 
         # If this component is scheduled to render, we can cancel that task since we
-        # are rendering it now.  We keep the cancelled task in ``_render_tasks`` so
-        # the semaphore token that ``_schedule_render_task`` released is still
-        # paired with an entry the consumer can pick up.  ``asyncio.wait`` returns
-        # cancelled tasks in the done set, and the ``CancelledError`` catch in
-        # ``_parallel_render`` drains the token naturally.
+        # are rendering it now. It can't have started because it waits for this render.
         if life_cycle_state.id in self._render_tasks_by_id:
             task = self._render_tasks_by_id[life_cycle_state.id]
             if task is not current_task():
                 del self._render_tasks_by_id[life_cycle_state.id]
-                self._render_task_to_lcs_id.pop(task, None)
                 task.cancel()
 
         await life_cycle_hook.affect_component_will_render(component)
@@ -568,16 +580,18 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             for target in model_state.targets_by_event.values():
-                del self._event_handlers[target]
+                self._event_handlers.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-                del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
                 await life_cycle_state.hook.affect_component_will_unmount()
+                self._model_states_by_life_cycle_state_id.pop(life_cycle_state.id, None)
 
             to_unmount.extend(model_state.children_by_key.values())
 
     def _schedule_render_task(self, lcs_id: _LifeCycleStateId) -> None:
+        if self._closing:
+            return None
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
@@ -589,16 +603,51 @@ class Layout(BaseLayout):
                 f"{lcs_id!r} - component already unmounted"
             )
         else:
-            task = create_task(self._create_layout_update(model_state))
-            self._render_task_to_lcs_id[task] = lcs_id
+            path = _get_life_cycle_path(model_state)
+            earlier_tasks = [
+                task
+                for task, other in self._render_task_paths.items()
+                # is the same component, or an ancestor or descendant of it
+                if path[: len(other)] == other[: len(path)]
+            ]
+            task = create_task(
+                self._create_layout_update_in_turn(lcs_id, earlier_tasks)
+            )
+            self._render_task_paths[task] = path
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
+            task.add_done_callback(self._render_task_ended)
+
+    def _render_task_ended(self, task: Task[LayoutUpdateMessage | None]) -> None:
+        path = self._render_task_paths.pop(task)
+        if self._render_tasks_by_id.get(path[-1]) is task:
+            del self._render_tasks_by_id[path[-1]]
+
+        if task.cancelled() or (not task.exception() and task.result() is None):
+            # there is no update to be returned by `render()`
+            self._render_tasks.discard(task)
+        else:
+            self._render_tasks_completed.append(task)
             self._render_tasks_ready.release()
 
     def __repr__(self) -> str:
         return f"{type(self).__name__}({self.root})"
 
 
+def _get_life_cycle_path(model_state: _ModelState) -> tuple[_LifeCycleStateId, ...]:
+    """Get the life cycle state IDs of a component and its ancestors, root first"""
+    path: list[_LifeCycleStateId] = []
+    state: _ModelState | None = model_state
+    while state is not None:
+        if state.is_component_state:
+            path.append(state.life_cycle_state.id)
+        try:
+            state = state.parent
+        except AttributeError:  # only the root has no parent
+            state = None
+    return tuple(reversed(path))
+
+
 def _new_root_model_state(
     component: Component, schedule_render: Callable[[_LifeCycleStateId], None]
 ) -> _ModelState:
-- 
2.43.0


From 4499ea219350d5e64f6bf9d35022c425df0782f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 05/64] fix: unmount everything below a component that failed
 to render

---
 src/reactpy/core/layout.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index e560fd9..3e72c6d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -352,6 +352,14 @@ class Layout(BaseLayout):
             )
         except Exception as error:
             logger.exception(f"Failed to render {component}")
+            # nothing that was or would have been below this component remains
+            await self._unmount_model_states(
+                [
+                    *new_state.children_by_key.values(),
+                    *(old_state.children_by_key.values() if old_state else ()),
+                ]
+            )
+            new_state.children_by_key.clear()
             new_state.model.current = {
                 "tagName": "",
                 "error": (
@@ -381,6 +389,9 @@ class Layout(BaseLayout):
         else:
             new_state = _update_element_model_state(old_state, parent, index)
 
+        # done early so that what is below it can be found if rendering it fails
+        parent.children_by_key[key] = new_state
+
         try:
             new_state.model.current = {"tagName": raw_model["tagName"]}
         except Exception as e:  # nocov
-- 
2.43.0


From 58febfc7460d0b5b19adb04ee075954540ca83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 06/64] fix: events waiting for a place in a full event queue
 are not overtaken by later ones

---
 src/reactpy/core/layout.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 3e72c6d..9c038df 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from asyncio import (
     CancelledError,
+    Lock,
     Queue,
     Task,
     create_task,
@@ -68,6 +69,8 @@ class Layout(BaseLayout):
         self._closing = False
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
+        # Events waiting for a place in a full queue take it in the order they arrived.
+        self._event_queue_locks: dict[str, Lock] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage | None]] = set()
         self._render_tasks_by_id: dict[
@@ -123,6 +126,7 @@ class Layout(BaseLayout):
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
         del self._event_queues
+        del self._event_queue_locks
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
@@ -144,11 +148,13 @@ class Layout(BaseLayout):
                 "Queue[LayoutEventMessage | dict[str, Any]]",
                 Queue(REACTPY_MAX_QUEUE_SIZE.current),
             )
+            self._event_queue_locks[target] = Lock()
             self._event_processing_tasks[target] = create_task(
                 self._process_event_queue(target, self._event_queues[target])
             )
 
-        await self._event_queues[target].put(event)
+        async with self._event_queue_locks[target]:
+            await self._event_queues[target].put(event)
 
         # In test environments, we yield to the event loop to let the processing tasks run.
         if REACTPY_DEBUG.current:
-- 
2.43.0


From f5c8b29fa08c5f4cd8dfc372ca09f2b76cc779b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 07/64] fix: a handler that waits for something cancelled does
 not stop later events of its element

---
 src/reactpy/core/layout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 9c038df..d243ac1 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -192,6 +192,11 @@ class Layout(BaseLayout):
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
                     ]
                     await handler.function(data)
+                except CancelledError:
+                    if cast("Task[None]", current_task()).cancelling():
+                        raise
+                    # something that the handler waited for was cancelled
+                    logger.exception(f"Failed to execute event handler {handler}")
                 except Exception:
                     logger.exception(f"Failed to execute event handler {handler}")
             else:
-- 
2.43.0


From b410ccaf7ee840af3223f47f0cd82b831dfeb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 08/64] fix: an event target's queue and task go away once its
 events are processed

---
 src/reactpy/core/layout.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d243ac1..fa89fac 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -71,6 +71,9 @@ class Layout(BaseLayout):
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         # Events waiting for a place in a full queue take it in the order they arrived.
         self._event_queue_locks: dict[str, Lock] = {}
+        # The number of events per target that have not been processed yet. A queue and
+        # its task exist only as long as there are any.
+        self._event_counts: Counter[str] = Counter()
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage | None]] = set()
         self._render_tasks_by_id: dict[
@@ -127,6 +130,7 @@ class Layout(BaseLayout):
         del self._event_handlers
         del self._event_queues
         del self._event_queue_locks
+        del self._event_counts
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
@@ -153,8 +157,13 @@ class Layout(BaseLayout):
                 self._process_event_queue(target, self._event_queues[target])
             )
 
-        async with self._event_queue_locks[target]:
-            await self._event_queues[target].put(event)
+        self._event_counts[target] += 1
+        try:
+            async with self._event_queue_locks[target]:
+                await self._event_queues[target].put(event)
+        except BaseException:
+            self._event_counts[target] -= 1
+            raise
 
         # In test environments, we yield to the event loop to let the processing tasks run.
         if REACTPY_DEBUG.current:
@@ -205,6 +214,14 @@ class Layout(BaseLayout):
                     "does not exist or its component unmounted"
                 )
 
+            self._event_counts[target] -= 1
+            if not self._event_counts[target]:
+                del self._event_counts[target]
+                del self._event_queues[target]
+                del self._event_queue_locks[target]
+                del self._event_processing_tasks[target]
+                return
+
     async def render(self) -> LayoutUpdateMessage:
         if REACTPY_ASYNC_RENDERING.current:
             return await self._parallel_render()
-- 
2.43.0


From 0ac193172e70d6ea200efdeab6e71bb5c1997425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 09/64] fix: acknowledge only numbers of events that the
 element itself sent

---
 src/reactpy/core/layout.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index fa89fac..2fe335f 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -175,16 +175,6 @@ class Layout(BaseLayout):
         while not self._closing:
             event = await queue.get()
 
-            # Record the client-assigned event sequence number (if any)
-            # so we can echo it back as ``ackSeq`` on the originating
-            # element. The client uses this to decide whether the
-            # server has caught up to the latest keystrokes.
-            seq = event.get("seq")
-            if isinstance(seq, int) and seq >= 0:
-                prev = self._last_event_seq_by_target.get(target, -1)
-                if seq > prev:
-                    self._last_event_seq_by_target[target] = seq
-
             # Retry a few times to handle potential re-render race conditions where
             # the handler is temporarily removed and then re-added.
             handler = self._event_handlers.get(target)
@@ -196,6 +186,16 @@ class Layout(BaseLayout):
                         break
 
             if handler is not None:
+                # Record the client-assigned event sequence number (if any)
+                # so we can echo it back as ``ackSeq`` on the originating
+                # element. The client uses this to decide whether the
+                # server has caught up to the latest keystrokes.
+                seq = event.get("seq")
+                if isinstance(seq, int) and seq >= 0:
+                    prev = self._last_event_seq_by_target.get(target, -1)
+                    if seq > prev:
+                        self._last_event_seq_by_target[target] = seq
+
                 try:
                     data = [
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
@@ -531,6 +531,8 @@ class Layout(BaseLayout):
             else:
                 target = f"{new_state.key_path}:{event}"
 
+            # a new element has not sent any events yet
+            self._last_event_seq_by_target.pop(target, None)
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
@@ -620,6 +622,7 @@ class Layout(BaseLayout):
 
             for target in model_state.targets_by_event.values():
                 self._event_handlers.pop(target, None)
+                self._last_event_seq_by_target.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From 191de0d960b91a7f9f3f2a6eb8ba39f6f5cb85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 10/64] fix: event targets of elements with different keys
 never coincide

---
 src/reactpy/core/layout.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 2fe335f..d0113f2 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -722,7 +722,7 @@ def _make_component_model_state(
         children_by_key={},
         targets_by_event={},
         life_cycle_state=_make_life_cycle_state(component, schedule_render),
-        key_path=f"{parent.key_path}/{key}" if parent else "",
+        key_path=_join_key_path(parent.key_path, key) if parent else "",
     )
 
 
@@ -766,7 +766,7 @@ def _update_component_model_state(
             if old_model_state.is_component_state
             else _make_life_cycle_state(new_component, schedule_render)
         ),
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_join_key_path(new_parent.key_path, old_model_state.key),
     )
 
 
@@ -783,7 +783,7 @@ def _make_element_model_state(
         patch_path=f"{parent.patch_path}/children/{index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{parent.key_path}/{key}",
+        key_path=_join_key_path(parent.key_path, key),
     )
 
 
@@ -800,10 +800,15 @@ def _update_element_model_state(
         patch_path=f"{new_parent.patch_path}/children/{new_index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_join_key_path(new_parent.key_path, old_model_state.key),
     )
 
 
+def _join_key_path(parent_path: str, key: Key) -> str:
+    # The repr tells apart keys like 1 and "1", and "a/b" from "b" below "a"
+    return f"{parent_path}/{key!r}"
+
+
 class _ModelState:
     """State that is bound to a particular element within the layout"""
 
-- 
2.43.0


From d7f2543d3c7ffc66efb5e0caf2f78ebad51babc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 11/64] fix: numbers received by an element are forgotten with
 the element, not with its handlers

---
 src/reactpy/core/layout.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d0113f2..c5c42de 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -460,6 +460,16 @@ class Layout(BaseLayout):
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
+        old_targets = old_state.past_targets.union(old_state.targets_by_event.values())
+        if old_state.model.current["tagName"] != new_state.model.current["tagName"]:
+            # this is a new element, which has not sent any events yet
+            for old_target in old_targets:
+                self._last_event_seq_by_target.pop(old_target, None)
+        else:
+            new_state.past_targets = {
+                t for t in old_targets if t in self._last_event_seq_by_target
+            }
+
         for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
             old_target = old_state.targets_by_event[old_event]
             del self._event_handlers[old_target]
@@ -623,6 +633,8 @@ class Layout(BaseLayout):
             for target in model_state.targets_by_event.values():
                 self._event_handlers.pop(target, None)
                 self._last_event_seq_by_target.pop(target, None)
+            for target in model_state.past_targets:
+                self._last_event_seq_by_target.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
@@ -822,6 +834,7 @@ class _ModelState:
         "key_path",
         "life_cycle_state",
         "model",
+        "past_targets",
         "patch_path",
         "targets_by_event",
     )
@@ -856,6 +869,9 @@ class _ModelState:
         self.targets_by_event = targets_by_event
         """The element's event handler target strings indexed by their event name"""
 
+        self.past_targets: set[str] = set()
+        """Targets the element had before whose event sequence numbers are recorded"""
+
         self.key_path = key_path
         """A slash-delimited path using element keys"""
 
-- 
2.43.0


From 9d930b0270f3a06a5a1e5e0839f32648e752a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 12/64] fix: a handler whose target changed is no longer
 reachable at its old target

---
 src/reactpy/core/layout.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index c5c42de..f53dff6 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -470,9 +470,8 @@ class Layout(BaseLayout):
                 t for t in old_targets if t in self._last_event_seq_by_target
             }
 
-        for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            old_target = old_state.targets_by_event[old_event]
-            del self._event_handlers[old_target]
+        for old_event in old_state.targets_by_event:
+            self._forget_event_handler(old_state, old_event)
 
         if not handlers_by_event:
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
@@ -486,12 +485,19 @@ class Layout(BaseLayout):
                 target = f"{new_state.key_path}:{event}"
 
             new_state.targets_by_event[event] = target
+            new_state.handlers_by_event[event] = handler
             self._event_handlers[target] = handler
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
         return None
 
+    def _forget_event_handler(self, old_state: _ModelState, event: str) -> None:
+        """Remove a handler unless another one took over its target"""
+        target = old_state.targets_by_event[event]
+        if self._event_handlers.get(target) is old_state.handlers_by_event[event]:
+            del self._event_handlers[target]
+
     def _inject_event_ack_seq(
         self, new_state: _ModelState, tag_name: str | None
     ) -> None:
@@ -544,6 +550,7 @@ class Layout(BaseLayout):
             # a new element has not sent any events yet
             self._last_event_seq_by_target.pop(target, None)
             new_state.targets_by_event[event] = target
+            new_state.handlers_by_event[event] = handler
             self._event_handlers[target] = handler
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
@@ -630,8 +637,8 @@ class Layout(BaseLayout):
         while to_unmount:
             model_state = to_unmount.pop()
 
-            for target in model_state.targets_by_event.values():
-                self._event_handlers.pop(target, None)
+            for event, target in model_state.targets_by_event.items():
+                self._forget_event_handler(model_state, event)
                 self._last_event_seq_by_target.pop(target, None)
             for target in model_state.past_targets:
                 self._last_event_seq_by_target.pop(target, None)
@@ -829,6 +836,7 @@ class _ModelState:
         "_parent_ref",
         "_render_semaphore",
         "children_by_key",
+        "handlers_by_event",
         "index",
         "key",
         "key_path",
@@ -869,6 +877,9 @@ class _ModelState:
         self.targets_by_event = targets_by_event
         """The element's event handler target strings indexed by their event name"""
 
+        self.handlers_by_event: EventHandlerDict = {}
+        """The element's event handlers indexed by their event name"""
+
         self.past_targets: set[str] = set()
         """Targets the element had before whose event sequence numbers are recorded"""
 
-- 
2.43.0


From eb6a38fe7ffc720900edfb1096a194f1a8a5f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 13/64] fix: a websocket connection is accepted before anything
 is rendered or sent

---
 src/reactpy/executors/asgi/middleware.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index d6e81a3..8b8595f 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -201,8 +201,10 @@ class ReactPyWebsocket(ResponseWebSocket):
         self.dispatcher: asyncio.Task[Any] | None = None
 
     async def __aenter__(self) -> ReactPyWebsocket:
+        # Nothing may be sent before the connection has been accepted
+        await super().__aenter__()
         self.dispatcher = asyncio.create_task(self.run_dispatcher())
-        return await super().__aenter__()  # type: ignore
+        return self
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
-- 
2.43.0


From 2f15235f141a3b44c2a722dc2abcdbc7ba76f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 14/64] fix: a websocket endpoint returns only after its layout
 was unmounted

---
 src/reactpy/executors/asgi/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 8b8595f..e0ae109 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -208,7 +208,9 @@ class ReactPyWebsocket(ResponseWebSocket):
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
+            # The layout must be unmounted before the endpoint returns
             self.dispatcher.cancel()
+            await asyncio.wait([self.dispatcher])
         await super().__aexit__()  # type: ignore
 
     async def run_dispatcher(self) -> None:
-- 
2.43.0


From 2d0eb758656eda0329e56e5bb0ff10afaa55cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 15/64] fix: a websocket whose rendering ended still notices
 that its client disconnected

---
 src/reactpy/executors/asgi/middleware.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index e0ae109..ddd0577 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -173,7 +173,7 @@ class ComponentDispatchApp:
                 if event["type"] == "websocket.receive":
                     msg: dict[str, str] = orjson.loads(event["text"])
                     if msg.get("type") == "layout-event":
-                        await ws.rendering_queue.put(msg)
+                        await ws.enqueue(msg)
                     else:  # nocov
                         await asyncio.to_thread(
                             _logger.warning, f"Unknown message type: {msg.get('type')}"
@@ -213,6 +213,20 @@ class ReactPyWebsocket(ResponseWebSocket):
             await asyncio.wait([self.dispatcher])
         await super().__aexit__()  # type: ignore
 
+    async def enqueue(self, msg: dict[str, str]) -> None:
+        """Hand a message to the dispatcher, waiting for a place in the rendering queue
+        only as long as there is a dispatcher that may make one."""
+        if not self.rendering_queue.full():
+            self.rendering_queue.put_nowait(msg)
+        elif self.dispatcher and not self.dispatcher.done():
+            put = asyncio.create_task(self.rendering_queue.put(msg))
+            try:
+                await asyncio.wait(
+                    [put, self.dispatcher], return_when=asyncio.FIRST_COMPLETED
+                )
+            finally:
+                put.cancel()
+
     async def run_dispatcher(self) -> None:
         """Async background task that renders ReactPy components over a websocket."""
         try:
-- 
2.43.0


From 6fd5dac91c0175695fb3f9b48669f157a4f78d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 16/64] fix: a layout that is being closed is closed completely
 even if cancelled meanwhile

---
 src/reactpy/core/layout.py | 44 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index f53dff6..fb3ccfd 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -108,23 +108,18 @@ class Layout(BaseLayout):
     async def __aexit__(
         self, exc_type: type[Exception], exc_value: Exception, traceback: TracebackType
     ) -> None:
-        root_csid = self._root_life_cycle_state_id
-        root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
         self._closing = True  # from now on nothing is scheduled any more
 
+        # being cancelled (again) meanwhile must not leave anything behind
+        closing = create_task(self._close())
+        cancelled: CancelledError | None = None
         with CancelScope(shield=True):
-            tasks = {*self._render_tasks, *self._event_processing_tasks.values()}
-            for t in tasks:
-                t.cancel()
-            if tasks:
-                await wait(tasks)
-
-            await self._unmount_model_states([root_model_state])
-            # a render that was cancelled part way may have left components behind
-            await self._unmount_model_states(
-                list(self._model_states_by_life_cycle_state_id.values())
-            )
-            await self._rendering_queue.close()
+            while not closing.done():
+                try:
+                    await wait([closing])
+                except CancelledError as error:
+                    cancelled = error
+        closing.result()
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
@@ -140,6 +135,27 @@ class Layout(BaseLayout):
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
 
+        if cancelled is not None:
+            raise cancelled
+
+    async def _close(self) -> None:
+        """Stop everything that is going on and unmount all components"""
+        root_csid = self._root_life_cycle_state_id
+        root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
+
+        tasks = {*self._render_tasks, *self._event_processing_tasks.values()}
+        for t in tasks:
+            t.cancel()
+        if tasks:
+            await wait(tasks)
+
+        await self._unmount_model_states([root_model_state])
+        # a render that was cancelled part way may have left components behind
+        await self._unmount_model_states(
+            list(self._model_states_by_life_cycle_state_id.values())
+        )
+        await self._rendering_queue.close()
+
     async def deliver(self, event: LayoutEventMessage | dict[str, Any]) -> None:
         """Dispatch an event to the targeted handler"""
         # It is possible for an element in the frontend to produce an event
-- 
2.43.0


From f5503a9a867349a2b46bdcec9a420123d2673669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 17/64] fix: a websocket endpoint that is cancelled while it
 ends still unmounts its layout

---
 src/reactpy/executors/asgi/middleware.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index ddd0577..6d2d8b5 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -207,10 +207,17 @@ class ReactPyWebsocket(ResponseWebSocket):
         return self
 
     async def __aexit__(self, *_: Any) -> None:
+        cancelled: asyncio.CancelledError | None = None
         if self.dispatcher:
             # The layout must be unmounted before the endpoint returns
             self.dispatcher.cancel()
-            await asyncio.wait([self.dispatcher])
+            while not self.dispatcher.done():
+                try:
+                    await asyncio.wait([self.dispatcher])
+                except asyncio.CancelledError as error:
+                    cancelled = error
+        if cancelled is not None:
+            raise cancelled
         await super().__aexit__()  # type: ignore
 
     async def enqueue(self, msg: dict[str, str]) -> None:
-- 
2.43.0


From 5761c5e873a1b541e58e62c600df05f59d805ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 18/64] fix: a websocket whose rendering ended never keeps the
 endpoint waiting for its queue

---
 src/reactpy/executors/asgi/middleware.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 6d2d8b5..8f528e5 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -173,7 +173,8 @@ class ComponentDispatchApp:
                 if event["type"] == "websocket.receive":
                     msg: dict[str, str] = orjson.loads(event["text"])
                     if msg.get("type") == "layout-event":
-                        await ws.enqueue(msg)
+                        if ws.dispatcher and not ws.dispatcher.done():
+                            await ws.rendering_queue.put(msg)
                     else:  # nocov
                         await asyncio.to_thread(
                             _logger.warning, f"Unknown message type: {msg.get('type')}"
@@ -220,20 +221,6 @@ class ReactPyWebsocket(ResponseWebSocket):
             raise cancelled
         await super().__aexit__()  # type: ignore
 
-    async def enqueue(self, msg: dict[str, str]) -> None:
-        """Hand a message to the dispatcher, waiting for a place in the rendering queue
-        only as long as there is a dispatcher that may make one."""
-        if not self.rendering_queue.full():
-            self.rendering_queue.put_nowait(msg)
-        elif self.dispatcher and not self.dispatcher.done():
-            put = asyncio.create_task(self.rendering_queue.put(msg))
-            try:
-                await asyncio.wait(
-                    [put, self.dispatcher], return_when=asyncio.FIRST_COMPLETED
-                )
-            finally:
-                put.cancel()
-
     async def run_dispatcher(self) -> None:
         """Async background task that renders ReactPy components over a websocket."""
         try:
@@ -273,6 +260,11 @@ class ReactPyWebsocket(ResponseWebSocket):
         except Exception as error:
             await asyncio.to_thread(_logger.error, f"{error}\n{traceback.format_exc()}")
 
+        # Nobody takes messages any more, so none may go on waiting for a place in the queue.
+        finally:
+            while not self.rendering_queue.empty():
+                self.rendering_queue.get_nowait()
+
     async def send_json(self, data: Any) -> None:
         return await self._send(
             {"type": "websocket.send", "text": orjson.dumps(data).decode()}
-- 
2.43.0


From ff002f7b491df5297f01e5a601aadc059231dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 19/64] fix: a new root model leaves nothing of the previous
 one on the page

---
 src/js/packages/@reactpy/client/src/components.tsx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index fe6004b..7da0981 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -144,6 +144,10 @@ export function Layout(props: { client: ReactPyClient }): JSX.Element {
     () =>
       props.client.onMessage("layout-update", ({ path, model }) => {
         if (path === "") {
+          // nothing of the previous model (e.g. an error) may be left behind
+          for (const key of Object.keys(currentModel)) {
+            delete currentModel[key as keyof ReactPyVdom];
+          }
           Object.assign(currentModel, model);
         } else {
           setJsonPointer(currentModel, path, model);
-- 
2.43.0


From 952f27259cecf7b9a0806b9fa9750e10819b3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 20/64] fix: reconnection settings of zero are honoured by the
 browser client

---
 src/js/packages/@reactpy/client/src/mount.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/mount.tsx b/src/js/packages/@reactpy/client/src/mount.tsx
index df42881..ddb9194 100644
--- a/src/js/packages/@reactpy/client/src/mount.tsx
+++ b/src/js/packages/@reactpy/client/src/mount.tsx
@@ -24,10 +24,10 @@ export function mountReactPy(props: MountProps) {
       jsModulesPath: `${window.location.origin}${props.pathPrefix}modules/`,
     },
     reconnectOptions: {
-      interval: props.reconnectInterval || 750,
-      maxInterval: props.reconnectMaxInterval || 60000,
-      maxRetries: props.reconnectMaxRetries || 150,
-      backoffMultiplier: props.reconnectBackoffMultiplier || 1.25,
+      interval: props.reconnectInterval ?? 750,
+      maxInterval: props.reconnectMaxInterval ?? 60000,
+      maxRetries: props.reconnectMaxRetries ?? 150,
+      backoffMultiplier: props.reconnectBackoffMultiplier ?? 1.25,
     },
     mountElement: props.mountElement,
   });
-- 
2.43.0


From dcfe9ee24aa2f339e91ba1abb430054bf080e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 21/64] fix: JavaScript modules can use the sendMessage and
 onMessage they are given

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 0a12380..a4829e2 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -39,8 +39,8 @@ export async function loadImportSource(
 
   return (node: HTMLElement) => {
     const binding = bind(node, {
-      sendMessage: client.sendMessage,
-      onMessage: client.onMessage,
+      sendMessage: (message) => client.sendMessage(message),
+      onMessage: (type, handler) => client.onMessage(type, handler),
     });
     if (
       !(
-- 
2.43.0


From 8ac783864b42744491ec66714d2456a933ad14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 22/64] fix: an imported component is bound once and not
 rendered after its binding was unmounted

---
 src/js/packages/@reactpy/client/src/components.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 7da0981..554c834 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -514,7 +514,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding, mountPoint.current]);
+  }, [client, vdomImportSourceJsonString, setBinding]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-- 
2.43.0


From 1f93340c73f5cb1ab904ab5c4705ece5c88ee8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 23/64] fix: an imported component never renders with a binding
 that was unmounted

---
 src/js/packages/@reactpy/client/src/components.tsx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 554c834..7779e96 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -488,7 +488,8 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
   const mountPoint = useRef<HTMLElement>(null);
   const client = useContext(ClientContext);
   const [binding, setBinding] = useState<ImportSourceBinding | null>(null);
-  const bindingSource = useRef<string | null>(null);
+  // the binding that was made last, unless it was given up since then
+  const liveBinding = useRef<ImportSourceBinding | null>(null);
 
   useEffect(() => {
     let unmounted = false;
@@ -498,7 +499,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
       loadImportSource(vdomImportSource, client).then((bind) => {
         if (!unmounted && mountPoint.current) {
           currentBinding = bind(mountPoint.current);
-          bindingSource.current = vdomImportSourceJsonString;
+          liveBinding.current = currentBinding;
           setBinding(currentBinding);
         }
       });
@@ -506,6 +507,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
 
     return () => {
       unmounted = true;
+      liveBinding.current = null;
       if (
         currentBinding &&
         vdomImportSource &&
@@ -521,7 +523,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
     if (!(binding && vdomImportSource)) {
       return;
     }
-    if (bindingSource.current !== vdomImportSourceJsonString) {
+    if (binding !== liveBinding.current) {
       return;
     }
     binding.render(model);
-- 
2.43.0


From 411881a1e15e65dfaa76a8fb2857909ab0041c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 24/64] fix: limits of throttled and debounced handlers hold
 across re-renders and clock changes

---
 .../@reactpy/client/src/components.tsx        | 112 ++++++++++++------
 1 file changed, 77 insertions(+), 35 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 7779e96..5c3dfc7 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -25,6 +25,46 @@ import type { ReactPyClient } from "./client";
 
 const ClientContext = createContext<ReactPyClient>(null as any);
 
+/** What is known about the recent calls of a throttled or debounced handler. */
+type RateLimitState = {
+  target: string | undefined;
+  lastFireTime: number;
+  timer: number | null;
+  pendingCall: (() => void) | null;
+};
+
+function firePendingCall(state: RateLimitState): void {
+  const call = state.pendingCall;
+  state.timer = null;
+  state.pendingCall = null;
+  if (call !== null) {
+    call();
+  }
+}
+
+/**
+ * The state of the rate limits of one element, which outlives its re-renders
+ * as long as the same handlers are bound to it.
+ */
+function useRateLimits(
+  model: ReactPyVdom,
+): (name: string, kind: "throttle" | "debounce") => RateLimitState {
+  const limits = useRef<{ [limit: string]: RateLimitState }>({}).current;
+  return (name, kind) => {
+    const limit = `${name} ${kind}`;
+    const target = model.eventHandlers?.[name]?.target;
+    if (limits[limit]?.target !== target) {
+      delete limits[limit];
+    }
+    return (limits[limit] ??= {
+      target,
+      lastFireTime: -Infinity,
+      timer: null,
+      pendingCall: null,
+    });
+  };
+}
+
 /**
  * Wrap ``handler`` so its outgoing call is throttled to at most once per
  * ``intervalMs`` milliseconds. Subsequent calls inside the window are
@@ -33,40 +73,37 @@ const ClientContext = createContext<ReactPyClient>(null as any);
  *
  * Returns the original handler unchanged when ``intervalMs`` is missing or
  * invalid.
+ *
+ * What the limit depends on is kept in ``state``, which must be the same for
+ * every wrapper of one handler of one element: wrappers are recreated whenever
+ * the server re-renders the element.
  */
 function throttleHandler(
   handler: TaggedEventHandler,
   intervalMs: number,
+  state: RateLimitState,
 ): TaggedEventHandler {
   if (!isValidDebounce(intervalMs)) {
     return handler;
   }
-  let pendingArgs: any[] | null = null;
-  let timer: number | null = null;
-  let lastFireTime = 0;
-
   const wrapped = function (...args: any[]) {
-    const now = Date.now();
-    const elapsed = now - lastFireTime;
-    if (elapsed >= intervalMs) {
+    // Unlike Date.now(), this does not change when the clock is set.
+    const now = performance.now();
+    const elapsed = now - state.lastFireTime;
+    if (state.timer === null && elapsed >= intervalMs) {
       // Leading edge: fire immediately, then start a cooldown.
-      lastFireTime = now;
+      state.lastFireTime = now;
       (handler as (...a: any[]) => void)(...args);
       return;
     }
     // Trailing edge: remember the latest args and schedule a fire at the
     // end of the cooldown so no event is silently dropped.
-    pendingArgs = args;
-    if (timer === null) {
-      timer = window.setTimeout(
+    state.pendingCall = () => (handler as (...a: any[]) => void)(...args);
+    if (state.timer === null) {
+      state.timer = window.setTimeout(
         () => {
-          timer = null;
-          if (pendingArgs !== null) {
-            const callArgs = pendingArgs;
-            pendingArgs = null;
-            lastFireTime = Date.now();
-            (handler as (...a: any[]) => void)(...callArgs);
-          }
+          state.lastFireTime = performance.now();
+          firePendingCall(state);
         },
         Math.max(0, intervalMs - elapsed),
       );
@@ -102,26 +139,17 @@ function throttleHandler(
 function debounceHandler(
   handler: TaggedEventHandler,
   delayMs: number,
+  state: RateLimitState,
 ): TaggedEventHandler {
   if (!isValidDebounce(delayMs) || delayMs === 0) {
     return handler;
   }
-  let timer: number | null = null;
-  let pendingArgs: any[] | null = null;
-
   const wrapped = function (...args: any[]) {
-    pendingArgs = args;
-    if (timer !== null) {
-      window.clearTimeout(timer);
+    state.pendingCall = () => (handler as (...a: any[]) => void)(...args);
+    if (state.timer !== null) {
+      window.clearTimeout(state.timer);
     }
-    timer = window.setTimeout(() => {
-      timer = null;
-      if (pendingArgs !== null) {
-        const callArgs = pendingArgs;
-        pendingArgs = null;
-        (handler as (...a: any[]) => void)(...callArgs);
-      }
-    }, delayMs);
+    state.timer = window.setTimeout(() => firePendingCall(state), delayMs);
   } as TaggedEventHandler;
 
   // Preserve the tag markers so downstream code can still introspect
@@ -188,6 +216,7 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
 
 function StandardElement({ model }: { model: ReactPyVdom }) {
   const client = useContext(ClientContext);
+  const rateLimit = useRateLimits(model);
   const attrs = createAttributes(model, client);
   // Apply the throttle wrapper to tagged handlers. ``throttle`` works on
   // every element; ``debounce`` is intentionally only applied by
@@ -205,7 +234,11 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
     }
     const throttle = handler[HANDLER_THROTTLE];
     if (isValidDebounce(throttle)) {
-      attrs[name] = throttleHandler(handler, throttle as number);
+      attrs[name] = throttleHandler(
+        handler,
+        throttle as number,
+        rateLimit(name, "throttle"),
+      );
     }
   }
   // Use createElement here to avoid warning about variable numbers of children not
@@ -222,6 +255,7 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
 
 function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const client = useContext(ClientContext);
+  const rateLimit = useRateLimits(model);
   const props = createAttributes(model, client);
   // ``_reactpy_ack_seq`` is set by the server to the highest sequence
   // number it has received from this element's event handlers. We use
@@ -339,10 +373,18 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     const handlerThrottle = givenHandler[HANDLER_THROTTLE];
     let wrapped: TaggedEventHandler = givenHandler;
     if (isValidDebounce(handlerThrottle)) {
-      wrapped = throttleHandler(wrapped, handlerThrottle as number);
+      wrapped = throttleHandler(
+        wrapped,
+        handlerThrottle as number,
+        rateLimit(name, "throttle"),
+      );
     }
     if (isValidDebounce(handlerDebounce)) {
-      wrapped = debounceHandler(wrapped, handlerDebounce as number);
+      wrapped = debounceHandler(
+        wrapped,
+        handlerDebounce as number,
+        rateLimit(name, "debounce"),
+      );
     }
 
     props[name] = (event: TargetedEvent<any>) => {
-- 
2.43.0


From 134765a7983f532972d24593c01dfabf6fa3285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 25/64] fix: default prevention is applied to events that a
 throttle or debounce holds back

---
 src/js/packages/@reactpy/client/src/components.tsx |  6 ++++++
 src/js/packages/@reactpy/client/src/handler.ts     |  2 ++
 src/js/packages/@reactpy/client/src/vdom.tsx       | 12 +++++++++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 5c3dfc7..6c7b2f6 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -98,6 +98,8 @@ function throttleHandler(
     }
     // Trailing edge: remember the latest args and schedule a fire at the
     // end of the cooldown so no event is silently dropped.
+    // It is too late for these once the event has been dispatched.
+    handler._reactpy_apply_defaults?.(...args);
     state.pendingCall = () => (handler as (...a: any[]) => void)(...args);
     if (state.timer === null) {
       state.timer = window.setTimeout(
@@ -113,6 +115,7 @@ function throttleHandler(
   // Preserve the tag markers so downstream code can still introspect the
   // wrapped function.
   wrapped[HANDLER_MARKER] = true;
+  wrapped._reactpy_apply_defaults = handler._reactpy_apply_defaults;
   const debounce = handler[HANDLER_DEBOUNCE];
   if (typeof debounce === "number") {
     wrapped[HANDLER_DEBOUNCE] = debounce;
@@ -145,6 +148,8 @@ function debounceHandler(
     return handler;
   }
   const wrapped = function (...args: any[]) {
+    // It is too late for these once the event has been dispatched.
+    handler._reactpy_apply_defaults?.(...args);
     state.pendingCall = () => (handler as (...a: any[]) => void)(...args);
     if (state.timer !== null) {
       window.clearTimeout(state.timer);
@@ -155,6 +160,7 @@ function debounceHandler(
   // Preserve the tag markers so downstream code can still introspect
   // the wrapped function.
   wrapped[HANDLER_MARKER] = true;
+  wrapped._reactpy_apply_defaults = handler._reactpy_apply_defaults;
   if (typeof handler[HANDLER_THROTTLE] === "number") {
     wrapped[HANDLER_THROTTLE] = handler[HANDLER_THROTTLE];
   }
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index dc6db59..41c1385 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -14,6 +14,8 @@ export type TaggedEventHandler = ((event: Event) => void) & {
   [HANDLER_MARKER]: true;
   [HANDLER_DEBOUNCE]?: number;
   [HANDLER_THROTTLE]?: number;
+  /** Apply ``preventDefault`` and ``stopPropagation`` if they were requested. */
+  _reactpy_apply_defaults?: (...args: any[]) => void;
 };
 
 /**
diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index a4829e2..cf16c56 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -230,15 +230,20 @@ function createEventHandler(
   // behavior (no wrapper) is to use a per-handler counter starting
   // at 0.
   let outgoingSeq = 0;
-  const eventHandler = function (...args: any[]) {
-    const data = Array.from(args).map((value) => {
-      const event = value as Event;
+  const applyDefaults = (...args: any[]) => {
+    for (const event of args as Event[]) {
       if (preventDefault) {
         event.preventDefault();
       }
       if (stopPropagation) {
         event.stopPropagation();
       }
+    }
+  };
+  const eventHandler = function (...args: any[]) {
+    applyDefaults(...args);
+    const data = Array.from(args).map((value) => {
+      const event = value as Event;
 
       // Convert JavaScript objects to plain JSON, if needed
       if (typeof event === "object") {
@@ -254,6 +259,7 @@ function createEventHandler(
     _reactpy_set_seq?: (n: number) => void;
   };
   eventHandler[HANDLER_MARKER] = true;
+  eventHandler._reactpy_apply_defaults = applyDefaults;
   eventHandler._reactpy_peek_seq = (): number => outgoingSeq;
   eventHandler._reactpy_set_seq = (n: number): void => {
     outgoingSeq = n;
-- 
2.43.0


From a367c78c344889a46a5e880cdff935e6b67bf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 26/64] fix: text typed by the user is not overwritten before
 the server has acknowledged it

---
 src/js/packages/@reactpy/client/src/client.ts | 16 +++-
 .../@reactpy/client/src/components.tsx        | 94 ++++++++++---------
 2 files changed, 61 insertions(+), 49 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/client.ts b/src/js/packages/@reactpy/client/src/client.ts
index bc0a489..96ad1b7 100644
--- a/src/js/packages/@reactpy/client/src/client.ts
+++ b/src/js/packages/@reactpy/client/src/client.ts
@@ -60,6 +60,7 @@ export class ReactPyClient
   socket: { current?: WebSocket };
   mountElement: HTMLElement;
   private readonly messageQueue: any[] = [];
+  private openedConnections = 0;
 
   constructor(props: GenericReactPyClientProps) {
     super();
@@ -71,6 +72,7 @@ export class ReactPyClient
       readyPromise: this.ready,
       ...props.reconnectOptions,
       onOpen: () => {
+        this.openedConnections++;
         while (this.messageQueue.length > 0) {
           this.sendMessage(this.messageQueue.shift());
         }
@@ -79,11 +81,17 @@ export class ReactPyClient
     });
   }
 
+  /** The number of the connection that a message sent now goes to. */
+  get connectionId(): number {
+    return this.openedConnections + (this.isConnected() ? 0 : 1);
+  }
+
+  private isConnected(): boolean {
+    return this.socket?.current?.readyState === WebSocket.OPEN;
+  }
+
   sendMessage(message: any): void {
-    if (
-      this.socket.current &&
-      this.socket.current.readyState === WebSocket.OPEN
-    ) {
+    if (this.socket.current && this.isConnected()) {
       this.socket.current.send(JSON.stringify(message));
     } else {
       this.messageQueue.push(message);
diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 6c7b2f6..b1c1cdb 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -291,11 +291,15 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // when no wrapper is installed), but we override it here so the
   // element owns a single monotonic counter across handlers.
   const sharedOutgoingSeq = useRef(0);
-  // Highest sequence number actually sent. The server's
-  // ``_reactpy_ack_seq`` will catch up to this. ``sharedOutgoingSeq``
-  // is incremented optimistically in the wrapper; ``lastSentSeq``
-  // is the high-water mark.
-  const lastSentSeq = useRef(-1);
+  // The latest event that was sent: its sequence number, which the
+  // server's ``_reactpy_ack_seq`` will catch up to, and the connection
+  // it was sent on (or is going to be sent on).
+  const lastSent = useRef({ seq: -1, connectionId: client.connectionId });
+  // The latest event of each handler, by its name, as long as that event is
+  // still being held back by a throttle or debounce.
+  const unsent = useRef(new Map<string, TargetedEvent<any>>()).current;
+  // This is rendered because of an update that came over this connection.
+  const connectionId = client.connectionId;
 
   // honor changes to value from the client via props
   useEffect(() => {
@@ -307,11 +311,13 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // keystrokes were processed. The sequence number can,
     // deterministically.
     //
-    // If the server has acknowledged every event the user has sent
-    // (``serverAckSeq >= lastSentSeq.current``), the server's value
-    // is the authoritative one and is applied directly. This
-    // includes clears (Enter handlers that reset the input),
-    // normalizations, and same-value confirmations.
+    // If the server has acknowledged every event of the user
+    // (none is held back and ``serverAckSeq >= lastSent.current.seq``),
+    // the server's value is the authoritative one and is applied
+    // directly. This includes clears (Enter handlers that reset the
+    // input), normalizations, and same-value confirmations. Events
+    // that were sent over an earlier connection are not waited for:
+    // the session that could acknowledge them is gone.
     // If the server is behind, its value is necessarily a stale
     // snapshot and is ignored; the next layout-update will be
     // applied once the server catches up.
@@ -323,7 +329,12 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // most recent keystroke), skip applying so we don't clobber
     // the user's text. This handles the realistic case where the
     // user types faster than the server can ack.
-    if (serverAckSeq < lastSentSeq.current) {
+    if (
+      unsent.size > 0 ||
+      lastSent.current.connectionId > connectionId ||
+      (lastSent.current.connectionId === connectionId &&
+        serverAckSeq < lastSent.current.seq)
+    ) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -354,18 +365,39 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       inputRef.current.value = props.value;
     }
     setValue(props.value);
-  }, [props.value, serverAckSeq]);
+  }, [props.value, serverAckSeq, connectionId]);
 
   for (const [name, prop] of Object.entries(props)) {
     if (typeof prop !== "function") {
       continue;
     }
 
-    const givenHandler = prop as TaggedEventHandler;
+    const givenHandler = prop as TaggedEventHandler & {
+      _reactpy_set_seq?: (n: number) => void;
+    };
     if (!givenHandler[HANDLER_MARKER]) {
       continue;
     }
 
+    // Number the events when they are actually sent, so that the numbers
+    // increase even if events of several handlers are held back.
+    const sendEvent = ((...args: any[]) => {
+      // Use a per-element (shared across all handlers on this
+      // element) monotonic counter for outgoing events. We
+      // overwrite the handler's own ``outgoingSeq`` with this
+      // counter so the wire-format seq number reflects the
+      // element-wide sequence.
+      const seq = sharedOutgoingSeq.current++;
+      lastSent.current = { seq, connectionId: client.connectionId };
+      if (unsent.get(name) === args[0]) {
+        unsent.delete(name);
+      }
+      givenHandler._reactpy_set_seq?.(seq);
+      (givenHandler as (...a: any[]) => void)(...args);
+    }) as TaggedEventHandler;
+    sendEvent[HANDLER_MARKER] = true;
+    sendEvent._reactpy_apply_defaults = givenHandler._reactpy_apply_defaults;
+
     // Apply ``throttle`` and/or ``debounce`` wrappers when the
     // handler opts into them. Throttle fires on the leading edge
     // (good for click-style events); debounce fires on the
@@ -377,7 +409,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // a debounce by default.
     const handlerDebounce = givenHandler[HANDLER_DEBOUNCE];
     const handlerThrottle = givenHandler[HANDLER_THROTTLE];
-    let wrapped: TaggedEventHandler = givenHandler;
+    let wrapped: TaggedEventHandler = sendEvent;
     if (isValidDebounce(handlerThrottle)) {
       wrapped = throttleHandler(
         wrapped,
@@ -394,37 +426,9 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     }
 
     props[name] = (event: TargetedEvent<any>) => {
-      // Use a per-element (shared across all handlers on this
-      // element) monotonic counter for outgoing events. We
-      // overwrite the handler's own ``outgoingSeq`` with this
-      // counter so the wire-format seq number reflects the
-      // element-wide sequence. The handler closure's own
-      // ``outgoingSeq`` is unused for sequencing purposes now
-      // (it still exists as a default for non-wrapped callers).
-      //
-      // Critically, we increment the seq counter and update
-      // ``lastSentSeq`` on every *user* event, not on every
-      // server dispatch. If the handler is wrapped in a
-      // debounce that coalesces several events into one server
-      // dispatch, ``lastSentSeq`` will be higher than the seq
-      // actually sent to the server, which is fine — the seq
-      // we sent is the LATEST user-typed value, which is the
-      // one the server actually processed.
-      const seq = sharedOutgoingSeq.current++;
-      if (seq > lastSentSeq.current) {
-        lastSentSeq.current = seq;
-      }
-      const taggedHandler = givenHandler as TaggedEventHandler & {
-        _reactpy_set_seq?: (n: number) => void;
-      };
-      if (typeof taggedHandler._reactpy_set_seq === "function") {
-        // Push the handler's internal counter past our seq so
-        // the next (possibly debounced) dispatch uses a seq
-        // number that matches what the user just typed, not
-        // whatever stale value the handler closure happened
-        // to have left over.
-        taggedHandler._reactpy_set_seq(seq + 1);
-      }
+      // From now on the server is behind, even if the event is held
+      // back by a throttle or debounce.
+      unsent.set(name, event);
 
       // ``onKeyPress`` fires before the DOM has been updated with
       // the new keystroke — ``event.target.value`` is the value
-- 
2.43.0


From 200a3e0f455a282791671a692c05b3d349c89fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 27/64] fix: inputs show values that are numbers

---
 src/js/packages/@reactpy/client/src/components.tsx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index b1c1cdb..b193141 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -274,6 +274,11 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // Strip the internal key from props so it never reaches the DOM.
   delete (props as Record<string, unknown>)["_reactpy_ack_seq"];
 
+  // Text fields hold strings, whatever the server sent.
+  if (typeof props.value === "number") {
+    props.value = String(props.value);
+  }
+
   const [, setValue] = useState(props.value);
   // Reference to the underlying DOM element. We read its current
   // ``value`` from the reconcile effect to compare against the
-- 
2.43.0


From 1b595842507aac03335f3a4a9b23c4e507484135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 28/64] fix: publishing a module is not blocked by a missing
 directory or an abandoned lock

The lock of a nested module name could never be taken, since its directory did
not exist yet; a process that died while holding a lock made every later
publication of that name fail; a change of the system's clock could end the wait
at once.
---
 src/reactpy/reactjs/utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index aee317b..4beea65 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -201,16 +201,25 @@ _JS_GENERAL_EXPORT_PATTERN = re.compile(
 
 @contextmanager
 def file_lock(lock_file: Path, timeout: float = 10.0):
-    start_time = time.time()
+    lock_file.parent.mkdir(parents=True, exist_ok=True)
+    start_time = time.monotonic()
     while True:
         try:
             fd = os.open(lock_file, os.O_CREAT | os.O_EXCL | os.O_RDWR)
             os.close(fd)
             break
         except OSError as e:
-            if time.time() - start_time > timeout:
-                raise TimeoutError(f"Could not acquire lock {lock_file}") from e
-            time.sleep(0.1)
+            if time.monotonic() - start_time > timeout:
+                if not isinstance(e, FileExistsError):
+                    raise TimeoutError(f"Could not acquire lock {lock_file}") from e
+                # The lock is only held for a moment. Whoever has held it for this long
+                # was stopped before it could be released.
+                logger.warning(f"Removing abandoned lock {lock_file}")
+                with suppress(FileNotFoundError):
+                    os.unlink(lock_file)
+                start_time = time.monotonic()
+            else:
+                time.sleep(0.1)
     try:
         yield
     finally:
-- 
2.43.0


From eb01ef0e277d6ee48db9ec8bc2698078ee27886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 29/64] fix: module files are compared by their current content

filecmp remembers the result of a comparison for as long as size and
modification time stay the same, so a module edited within the resolution of the
clock was not published.
---
 src/reactpy/reactjs/utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 4beea65..552d1ce 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -1,4 +1,3 @@
-import filecmp
 import logging
 import os
 import re
@@ -150,11 +149,7 @@ def normalize_url_path(base_url: str, rel_url: str) -> str:
 
 
 def are_files_identical(f1: Path, f2: Path) -> bool:
-    f1 = f1.resolve()
-    f2 = f2.resolve()
-    return (
-        (f1.is_symlink() or f2.is_symlink()) and (f1.resolve() == f2.resolve())
-    ) or filecmp.cmp(str(f1), str(f2), shallow=False)
+    return f1.read_bytes() == f2.read_bytes()
 
 
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
-- 
2.43.0


From ad56abc0823a6832edc33a616f60b50a0e20d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 30/64] fix: a module file appears and changes only as a whole

string_to_module removed and then wrote the file that is being served, and did so
without the lock; a symbolic link was removed before the new one was made; the
temporary copy had the same name for all publishers. The names of a module given
as a string are those of the given content, not of what another publisher has
written since.
---
 src/reactpy/reactjs/module.py | 23 ++++++-----
 src/reactpy/reactjs/utils.py  | 74 +++++++++++++++++++++++++----------
 2 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 337b1ec..93fe013 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -13,6 +13,7 @@ from reactpy.reactjs.utils import (
     file_lock,
     resolve_names_from_file,
     resolve_names_from_url,
+    write_file,
 )
 from reactpy.types import ImportSourceDict, JavaScriptModule, VdomConstructor, VdomDict
 
@@ -63,8 +64,7 @@ def file_to_module(
             copy_file(target_file, source_file, symlink)
         elif not are_files_identical(source_file, target_file):
             logger.info(
-                f"Existing web module {name!r} will "
-                f"be replaced with {target_file.resolve()}"
+                f"Existing web module {name!r} will be replaced with {target_file}"
             )
             copy_file(target_file, source_file, symlink)
 
@@ -94,15 +94,14 @@ def string_to_module(
 
     target_file = get_module_path(name)
 
-    if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
-        logger.info(
-            f"Existing web module {name!r} will "
-            f"be replaced with {target_file.resolve()}"
-        )
-        target_file.unlink()
-
-    target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content)
+    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
+        if not target_file.exists():
+            write_file(target_file, content)
+        elif target_file.read_bytes() != content.encode("utf-8"):
+            logger.info(
+                f"Existing web module {name!r} will be replaced with {target_file}"
+            )
+            write_file(target_file, content)
 
     return JavaScriptModule(
         source=name,
@@ -110,7 +109,7 @@ def string_to_module(
         default_fallback=fallback,
         file=target_file,
         import_names=(
-            resolve_names_from_file(target_file, resolve_imports_depth)
+            resolve_names_from_file(target_file, resolve_imports_depth, content=content)
             if resolve_imports
             else None
         ),
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 552d1ce..62b9970 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -6,6 +6,7 @@ import time
 from contextlib import contextmanager, suppress
 from pathlib import Path
 from urllib.parse import urlparse, urlunparse
+from uuid import uuid4
 
 import requests
 
@@ -16,16 +17,20 @@ def resolve_names_from_file(
     file: Path,
     max_depth: int,
     is_regex_import: bool = False,
+    content: str | None = None,
 ) -> set[str]:
     if max_depth == 0:
         logger.warning(f"Did not resolve all imports for {file} - max depth reached")
         return set()
-    elif not file.exists():
-        logger.warning(f"Did not resolve imports for unknown file {file}")
-        return set()
+
+    if content is None:
+        if not file.exists():
+            logger.warning(f"Did not resolve imports for unknown file {file}")
+            return set()
+        content = file.read_text(encoding="utf-8")
 
     names, references = resolve_names_from_source(
-        file.read_text(encoding="utf-8"), exclude_default=is_regex_import
+        content, exclude_default=is_regex_import
     )
 
     for ref in references:
@@ -154,33 +159,62 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
 
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
     target.parent.mkdir(parents=True, exist_ok=True)
+    # The target only ever appears, or changes, as a whole: whatever it becomes is
+    # prepared under a name no other publisher uses.
+    temp_target = _temp_path(target)
     if symlink:
-        if target.exists():
-            target.unlink()
         try:
-            target.symlink_to(source)
+            temp_target.symlink_to(source)
         except OSError as error:
             try:
+                if target.exists():
+                    target.unlink()
                 os.link(source, target)
             except OSError as e:
                 raise error from e
+        else:
+            _replace_file(target, temp_target)
     else:
-        temp_target = target.with_suffix(f"{target.suffix}.tmp")
-        shutil.copy(source, temp_target)
+        try:
+            shutil.copy(source, temp_target)
+        except BaseException:
+            with suppress(OSError):
+                os.unlink(temp_target)
+            raise
+        _replace_file(target, temp_target)
+
+
+def write_file(target: Path, content: str) -> None:
+    target.parent.mkdir(parents=True, exist_ok=True)
+    temp_target = _temp_path(target)
+    try:
+        temp_target.write_bytes(content.encode("utf-8"))
+    except BaseException:
+        with suppress(OSError):
+            os.unlink(temp_target)
+        raise
+    _replace_file(target, temp_target)
+
+
+def _temp_path(target: Path) -> Path:
+    return target.with_name(f"{target.name}.{uuid4().hex}.tmp")
+
+
+def _replace_file(target: Path, temp_target: Path) -> None:
+    try:
+        temp_target.replace(target)
+    except OSError:
+        # On Windows, replace might fail if the file is open
+        # Retry once after a short delay
+        time.sleep(0.1)
         try:
             temp_target.replace(target)
         except OSError:
-            # On Windows, replace might fail if the file is open
-            # Retry once after a short delay
-            time.sleep(0.1)
-            try:
-                temp_target.replace(target)
-            except OSError:
-                # If it still fails, try to unlink and rename
-                # This is not atomic, but it's a fallback
-                if target.exists():
-                    target.unlink()
-                temp_target.rename(target)
+            # If it still fails, try to unlink and rename
+            # This is not atomic, but it's a fallback
+            if target.exists():
+                target.unlink()
+            temp_target.rename(target)
 
 
 _JS_DEFAULT_EXPORT_PATTERN = re.compile(
-- 
2.43.0


From 607f47f32b3fdf7b2fc4aff43e6e064d31158007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 31/64] fix: a render scheduled from another thread does not
 keep later ones from being scheduled

The component could be rendered between the scheduling of the render and the note
that it is scheduled, which then was never taken back: the component did not
render again.
---
 src/reactpy/core/_life_cycle_hook.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 91dcb1d..30e08ae 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -164,13 +164,15 @@ class LifeCycleHook:
     def schedule_render(self) -> None:
         if self._scheduled_render:
             return None
+        # When called from another thread, the render may begin, and reset this, before
+        # the callback returns.
+        self._scheduled_render = True
         try:
             self._schedule_render_callback()
         except Exception:
+            self._scheduled_render = False
             msg = f"Failed to schedule render via {self._schedule_render_callback}"
             logger.exception(msg)
-        else:
-            self._scheduled_render = True
 
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
-- 
2.43.0


From 51a4844089d5eecb0e16450353404072b229ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 32/64] fix: with asynchronous rendering state can be set from
 other threads

The task that renders the component was created in the calling thread, which has
no running event loop: the update was not shown.
---
 src/reactpy/core/layout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index fb3ccfd..762a679 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -5,6 +5,7 @@ from asyncio import (
     Lock,
     Queue,
     Task,
+    _get_running_loop,
     create_task,
     current_task,
     get_running_loop,
@@ -67,6 +68,7 @@ class Layout(BaseLayout):
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
         self._closing = False
+        self._loop = get_running_loop()
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         # Events waiting for a place in a full queue take it in the order they arrived.
@@ -672,6 +674,9 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
+        if _get_running_loop() is not self._loop:  # called from another thread
+            self._loop.call_soon_threadsafe(self._schedule_render_task, lcs_id)
+            return None
         try:
             model_state = self._model_states_by_life_cycle_state_id[lcs_id]
         except KeyError:
-- 
2.43.0


From 1238b4d8bde34cd8a681cb649c2bc4d449555237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 33/64] fix: a component scheduled by two threads at once is
 queued once

Both could find that it was not pending; taking it out of the queue the second
time ended the session with a KeyError.
---
 src/reactpy/core/layout.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 762a679..a7bd007 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -16,6 +16,7 @@ from collections import Counter, deque
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
+from threading import Lock as ThreadLock
 from types import TracebackType
 from typing import (
     Any,
@@ -985,11 +986,14 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._queue: Queue[_Type] = Queue(REACTPY_MAX_QUEUE_SIZE.current)
         self._pending: set[_Type] = set()
         self._put_tasks: dict[_Type, Task[None]] = {}
+        self._put_lock = ThreadLock()
 
     def put(self, value: _Type) -> None:
-        if value not in self._pending:
+        with self._put_lock:
+            if value in self._pending:
+                return None
             self._pending.add(value)
-            self._loop.call_soon_threadsafe(self._schedule_put, value)
+        self._loop.call_soon_threadsafe(self._schedule_put, value)
 
     def _schedule_put(self, value: _Type) -> None:
         self._put_tasks[value] = create_task(self._put_with_backpressure(value))
-- 
2.43.0


From 1138800194463eb39b88e0f7d08ec71a714180a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 34/64] fix: no update is lost when several threads set the
 same state

An updater function could be given a value that another thread was about to
replace.
---
 src/reactpy/core/hooks.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 061010d..147691f 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -5,6 +5,7 @@ import contextlib
 import inspect
 from collections.abc import Callable, Coroutine, Sequence
 from logging import getLogger
+from threading import RLock
 from types import FunctionType
 from typing import (
     TYPE_CHECKING,
@@ -86,12 +87,15 @@ class _CurrentState(Generic[_Type]):
     ) -> None:
         self.value = initial_value() if callable(initial_value) else initial_value
         hook = HOOK_STACK.current_hook()
+        lock = RLock()  # the state may be set by several threads
 
         def dispatch(new: _Type | Callable[[_Type], _Type]) -> None:
-            next_value = new(self.value) if callable(new) else new  # type: ignore
-            if not strictly_equal(next_value, self.value):
+            with lock:
+                next_value = new(self.value) if callable(new) else new  # type: ignore
+                if strictly_equal(next_value, self.value):
+                    return None
                 self.value = next_value
-                hook.schedule_render()
+            hook.schedule_render()
 
         self.dispatch = dispatch
 
-- 
2.43.0


From 95ebc0fb9f94868a75fc5913cfa4d854462e682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 35/64] fix: PyScript components that left the page are deleted

The layout handler is imported by the component template, so its globals() are not
those of the page, where the workspaces and their tasks are defined.
---
 src/reactpy/executors/pyscript/layout_handler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 1a49c75..f06fac3 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -1,4 +1,5 @@
 # type: ignore
+import __main__
 import asyncio
 import logging
 
@@ -125,25 +126,27 @@ class ReactPyLayoutHandler:
         # Find all PyScript workspaces that are still on the page
         dom_workspaces = js.document.querySelectorAll(".pyscript")
         dom_uuids = {element.dataset.uuid for element in dom_workspaces}
+        # This class may have been imported, so the page's namespace isn't always ours
+        namespace = vars(__main__)
         python_uuids = {
             value.split("_")[-1]
-            for value in globals()
+            for value in namespace
             if value.startswith("user_workspace_")
         }
 
         # Delete any workspaces that are no longer in use
         for uuid in python_uuids - dom_uuids:
             task_name = f"task_{uuid}"
-            if task_name in globals():
-                task: asyncio.Task = globals()[task_name]
+            if task_name in namespace:
+                task: asyncio.Task = namespace[task_name]
                 task.cancel()
-                del globals()[task_name]
+                del namespace[task_name]
             else:
                 logging.error("Could not auto delete PyScript task %s", task_name)
 
             workspace_name = f"user_workspace_{uuid}"
-            if workspace_name in globals():
-                del globals()[workspace_name]
+            if workspace_name in namespace:
+                del namespace[workspace_name]
             else:
                 logging.error(
                     "Could not auto delete PyScript workspace %s", workspace_name
-- 
2.43.0


From a2e8272dd06135dfbb25534882c82f0288a0ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 36/64] fix: a PyScript component that has left the page does
 not fail to render

Updates of a component whose container was removed ended its task with an
AttributeError.
---
 src/reactpy/executors/pyscript/layout_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index f06fac3..4409c05 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -37,6 +37,9 @@ class ReactPyLayoutHandler:
         """Submit ReactPy's internal DOM model into the HTML DOM."""
         # Create a new container to render the layout into
         container = js.document.getElementById(f"pyscript-{self.uuid}")
+        if container is None:
+            # The component has been removed from the page
+            return
         temp_root_container = container.cloneNode(False)
         self.build_element_tree(layout, temp_root_container, model)
 
-- 
2.43.0


From ad23224567c8073033fd2038e91f9df539168cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 37/64] fix: PyScript components do not show attributes that
 are False or None

The attribute disabled={False} was set to "false", which disables the element, and
htmlFor was not the attribute it stands for.
---
 src/reactpy/executors/pyscript/layout_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 4409c05..4d41eba 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -71,11 +71,16 @@ class ReactPyLayoutHandler:
 
             # Set the element's HTML attributes
             for key, value in attributes.items():
+                if value is None or (value is False and key[4:5] != "-"):
+                    # Only `data-*` and `aria-*` attributes can be "false"
+                    continue
                 if key == "style":
                     for style_key, style_value in value.items():
                         setattr(element.style, style_key, style_value)
                 elif key == "className":
                     element.className = value
+                elif key == "htmlFor":
+                    element.setAttribute("for", value)
                 else:
                     element.setAttribute(key, value)
 
-- 
2.43.0


From ade9dee2acc1a9156df94ed8e3db7667b7031f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 38/64] fix: event listeners of PyScript components follow the
 view

Morphdom keeps elements with the listeners they had, while those of the new element
are thrown away: events called handlers that had been replaced or removed, or none.
The proxies of the listeners were also kept forever.
---
 .../executors/pyscript/layout_handler.py      | 83 +++++++++++++------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 4d41eba..be013c9 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -5,7 +5,7 @@ import logging
 
 import js
 from jsonpointer import set_pointer
-from pyodide.ffi.wrappers import add_event_listener
+from pyodide.ffi.wrappers import add_event_listener, remove_event_listener
 from pyscript.js_modules import morphdom
 
 from reactpy.core.layout import Layout
@@ -22,6 +22,8 @@ class ReactPyLayoutHandler:
     def __init__(self, uuid):
         self.uuid = uuid
         self.running_tasks = set()
+        # Event listeners within the DOM: {(element id, event name): (element, model, listener)}
+        self.listeners = {}
 
     @staticmethod
     def update_model(update, root_model):
@@ -41,7 +43,7 @@ class ReactPyLayoutHandler:
             # The component has been removed from the page
             return
         temp_root_container = container.cloneNode(False)
-        self.build_element_tree(layout, temp_root_container, model)
+        self.build_element_tree(temp_root_container, model)
 
         # Use morphdom to update the DOM
         morphdom.default(container, temp_root_container)
@@ -49,7 +51,15 @@ class ReactPyLayoutHandler:
         # Remove the cloned container to prevent memory leaks
         temp_root_container.remove()
 
-    def build_element_tree(self, layout, parent, model):
+        # Morphdom keeps elements (and their old listeners) wherever it can, thus
+        # listeners are only added after the DOM has been updated
+        listeners = {}
+        self.bind_event_handlers(layout, container, [model], listeners)
+        for listener_id, (element, _, listener) in self.listeners.items():
+            remove_event_listener(element, listener_id[1], listener)
+        self.listeners = listeners
+
+    def build_element_tree(self, parent, model):
         """Recursively build an element tree, starting from the root component."""
         # If the model is a string, add it as a text node
         if isinstance(model, str):
@@ -60,7 +70,7 @@ class ReactPyLayoutHandler:
             # If the model is a fragment, build the children
             if not model["tagName"]:
                 for child in model.get("children", []):
-                    self.build_element_tree(layout, parent, child)
+                    self.build_element_tree(parent, child)
                 return
 
             # Otherwise, get the VdomDict attributes
@@ -84,17 +94,9 @@ class ReactPyLayoutHandler:
                 else:
                     element.setAttribute(key, value)
 
-            # Add event handlers to the element
-            for event_name, event_handler_model in model.get(
-                "eventHandlers", {}
-            ).items():
-                self.create_event_handler(
-                    layout, element, event_name, event_handler_model
-                )
-
             # Recursively build the children
             for child in children:
-                self.build_element_tree(layout, element, child)
+                self.build_element_tree(element, child)
 
             # Append the element to the parent
             parent.appendChild(element)
@@ -104,7 +106,38 @@ class ReactPyLayoutHandler:
             msg = f"Unknown model type: {type(model)}"
             raise TypeError(msg)
 
-    def create_event_handler(self, layout, element, event_name, event_handler_model):
+    def element_models(self, models):
+        """The models of all elements (no text) on one level, with fragments resolved."""
+        for model in models:
+            if not isinstance(model, dict):
+                continue
+            if model["tagName"]:
+                yield model
+            else:
+                yield from self.element_models(model.get("children", []))
+
+    def bind_event_handlers(self, layout, parent, models, listeners):
+        """Recursively add the event handlers of the models to the elements in the DOM.
+        Those that have not changed are moved from the old to the new listeners."""
+        elements = list(parent.children)
+        for element, model in zip(elements, self.element_models(models)):
+            for event_name, handler_model in model.get("eventHandlers", {}).items():
+                # Convert ReactJS-style event names to HTML event names
+                name = event_name.lower().removeprefix("on")
+                listener_id = (element.js_id, name)
+                old = self.listeners.get(listener_id)
+                if old and old[1] == handler_model:
+                    listeners[listener_id] = self.listeners.pop(listener_id)
+                else:
+                    listener = self.create_event_handler(layout, handler_model)
+                    add_event_listener(element, name, listener)
+                    listeners[listener_id] = (element, handler_model, listener)
+
+            self.bind_event_handlers(
+                layout, element, model.get("children", []), listeners
+            )
+
+    def create_event_handler(self, layout, event_handler_model):
         """Create an event handler for an element. This function is used as an
         adapter between ReactPy and browser events."""
         target = event_handler_model["target"]
@@ -118,12 +151,7 @@ class ReactPyLayoutHandler:
             self.running_tasks.add(task)
             task.add_done_callback(self.running_tasks.remove)
 
-        # Convert ReactJS-style event names to HTML event names
-        event_name = event_name.lower()
-        if event_name.startswith("on"):
-            event_name = event_name[2:]
-
-        add_event_listener(element, event_name, event_handler)
+        return event_handler
 
     @staticmethod
     def delete_old_workspaces():
@@ -165,8 +193,13 @@ class ReactPyLayoutHandler:
         self.delete_old_workspaces()
         root_model: dict = {}
 
-        async with Layout(workspace_function()) as root_layout:
-            while True:
-                update = await root_layout.render()
-                self.update_model(update, root_model)
-                self.render_html(root_layout, root_model)
+        try:
+            async with Layout(workspace_function()) as root_layout:
+                while True:
+                    update = await root_layout.render()
+                    self.update_model(update, root_model)
+                    self.render_html(root_layout, root_model)
+        finally:
+            for (_, name), (element, _, listener) in self.listeners.items():
+                remove_event_listener(element, name, listener)
+            self.listeners.clear()
-- 
2.43.0


From eeade50be820bed2f7b03d410f4e04ffb58bec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 39/64] fix: PyScript components respect prevent_default and
 stop_propagation

---
 src/reactpy/executors/pyscript/layout_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index be013c9..87e51b2 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -143,6 +143,11 @@ class ReactPyLayoutHandler:
         target = event_handler_model["target"]
 
         def event_handler(*args):
+            if event_handler_model["preventDefault"]:
+                args[0].preventDefault()
+            if event_handler_model["stopPropagation"]:
+                args[0].stopPropagation()
+
             # When the event is triggered, deliver the event to the `Layout` within a background task
             task = asyncio.create_task(
                 layout.deliver({"type": "layout-event", "target": target, "data": args})
-- 
2.43.0


From 71486522c5cd2a78941dc2619cb3f3baa017d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 40/64] fix: PyScript components run the code that the user has
 written

A # within a string was taken for a comment, blocks that consist of a docstring became
empty, and the lines of multi-line strings were removed and indented.
---
 src/reactpy/executors/pyscript/utils.py | 81 +++++++++++++++++++++----
 1 file changed, 68 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 2b72262..d8b3a58 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -12,7 +12,7 @@ import re
 import shutil
 import subprocess
 import sys
-import textwrap
+import tokenize
 from collections.abc import Callable
 from importlib import metadata
 from io import StringIO
@@ -36,18 +36,74 @@ _PYSCRIPT_WHEELS_DIR = "wheels"
 _WHEEL_FILENAME_PART_COUNT = 5
 
 
+def _tokenize_python(source: str) -> list[tokenize.TokenInfo]:
+    try:
+        return list(tokenize.generate_tokens(StringIO(source).readline))
+    except (tokenize.TokenError, SyntaxError):
+        # The user will see the error once the code is executed
+        return []
+
+
+def _rows_within_strings(tokens: list[tokenize.TokenInfo]) -> set[int]:
+    """The (zero-based) rows that begin inside of a string, which thus can't be modified."""
+    rows: set[int] = set()
+    f_strings: list[int] = []
+    for token in tokens:
+        token_name = tokenize.tok_name[token.type]
+        if token_name == "STRING":
+            rows.update(range(token.start[0], token.end[0]))
+        elif token_name == "FSTRING_START":
+            f_strings.append(token.start[0])
+        elif token_name == "FSTRING_END":
+            rows.update(range(f_strings.pop(), token.end[0]))
+    return rows
+
+
 def minify_python(source: str) -> str:
-    """Minify Python source code."""
-    # Remove comments
-    source = re.sub(r"#.*\n", "\n", source)
+    """Minify Python source code by removing comments, docstrings, and empty lines."""
+    lines = source.split("\n")
+    tokens = _tokenize_python(source)
+    keep = _rows_within_strings(tokens)
+    code = [t for t in tokens if t.type not in (tokenize.NL, tokenize.COMMENT)]
+
     # Remove docstrings
-    source = re.sub(r'\n\s*""".*?"""', "", source, flags=re.DOTALL)
-    # Remove excess newlines
-    source = re.sub(r"\n+", "\n", source)
-    # Remove empty lines
-    source = re.sub(r"\s+\n", "\n", source)
-    # Remove leading and trailing whitespace
-    return source.strip()
+    for index, token in enumerate(code[:-2]):
+        if (
+            token.type == tokenize.STRING
+            and code[index + 1].type == tokenize.NEWLINE
+            and (index == 0 or code[index - 1].type == tokenize.INDENT)
+        ):
+            start, end = token.start[0] - 1, token.end[0] - 1
+            # Blocks can't be empty
+            replacement = '""' if code[index + 2].type == tokenize.DEDENT else ""
+            rest = lines[end][token.end[1] :]
+            for row in range(start + 1, end + 1):
+                lines[row] = ""
+                keep.discard(row)
+            lines[start] = lines[start][: token.start[1]] + replacement + rest
+    # Remove comments
+    for token in tokens:
+        if token.type == tokenize.COMMENT:
+            row = token.start[0] - 1
+            lines[row] = lines[row].removesuffix(token.string)
+    # Remove empty lines, and trailing whitespace
+    minified: list[str] = []
+    for row, line in enumerate(lines):
+        if row in keep or line.strip() or (minified and minified[-1].endswith("\\")):
+            minified.append(line if row + 1 in keep else line.rstrip())
+    return "\n".join(minified).strip()
+
+
+def _indent_python(source: str) -> str:
+    """Indents Python source code by one level. The content of strings isn't modified."""
+    keep = _rows_within_strings(_tokenize_python(source))
+    lines = source.split("\n")
+    for row, line in enumerate(lines):
+        code = line.lstrip()
+        if row not in keep and code:
+            whitespace = line[: len(line) - len(code)]
+            lines[row] = "    " + whitespace.replace("\t", "    ") + code
+    return "\n".join(lines)
 
 
 PYSCRIPT_COMPONENT_TEMPLATE = minify_python(
@@ -76,8 +132,7 @@ def pyscript_executor_html(
 
     # Prepare the PyScript code block
     user_code = "\n".join(all_file_contents)  # Combine all user code
-    user_code = user_code.replace("\t", "    ")  # Normalize the text
-    user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
+    user_code = _indent_python(user_code)  # Add indentation to match template
 
     # Ensure the root component exists
     if f"def {root}():" not in user_code:
-- 
2.43.0


From fbbd838decc21a4e349ef555894160b034691595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 41/64] fix: the content-length of the index page is its number
 of bytes

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index e962707..999dc87 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -215,7 +215,7 @@ class ReactPyApp:
             "last-modified": self._last_modified,
             "access-control-allow-origin": "*",
             "cache-control": "max-age=60, public",
-            "content-length": str(len(self._index_html)),
+            "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
             **self.parent.extra_headers,
         }
-- 
2.43.0


From 9e8fa8cecfcdc7c79d84e227d49660981a2ba9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 42/64] fix: clients are not told that an outdated page is
 current

---
 src/reactpy/executors/asgi/standalone.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 999dc87..4e5b4fc 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -225,11 +225,16 @@ class ReactPyApp:
             response = ResponseHTML("", headers=response_headers)
             return await response(scope, receive, send)  # type: ignore
 
-        # Browser already has the content cached
-        if (
-            request_headers.get(b"if-none-match") == self._etag.encode()
-            or request_headers.get(b"if-modified-since") == self._last_modified.encode()
-        ):
+        # Browser already has the content cached. Dates only matter if there is no ETag, since
+        # other content might have been served within the same second.
+        if b"if-none-match" in request_headers:
+            is_cached = request_headers[b"if-none-match"] == self._etag.encode()
+        else:
+            is_cached = (
+                request_headers.get(b"if-modified-since")
+                == self._last_modified.encode()
+            )
+        if is_cached:
             response_headers.pop("content-length")
             response = ResponseHTML("", headers=response_headers, status_code=304)
             return await response(scope, receive, send)  # type: ignore
-- 
2.43.0


From b9e7272b3ceee0f9b9436dd0bd0066713c3ab3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 43/64] fix: user-provided HTTP headers replace the default
 ones

---
 src/reactpy/executors/asgi/standalone.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 4e5b4fc..0ec66bc 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -217,7 +217,10 @@ class ReactPyApp:
             "cache-control": "max-age=60, public",
             "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
-            **self.parent.extra_headers,
+            # Header names are case-insensitive
+            **{
+                name.lower(): value for name, value in self.parent.extra_headers.items()
+            },
         }
 
         # Browser is asking for the headers
-- 
2.43.0


From 72af3984edcef08c59646a35e9d29979ee1d38dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 44/64] fix: setting up PyScript does not modify the user's
 head element

---
 src/reactpy/executors/asgi/standalone.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 0ec66bc..1fab758 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -80,7 +80,6 @@ class ReactPy(ReactPyMiddleware):
         self.html_lang = html_lang
 
         if pyscript_setup:
-            self.html_head.setdefault("children", [])
             pyscript_options = pyscript_options or {}
             extra_py = pyscript_options.get("extra_py", [])
             extra_js = pyscript_options.get("extra_js", {})
@@ -89,7 +88,12 @@ class ReactPy(ReactPyMiddleware):
                 pyscript_setup_html(extra_py, extra_js, config)
             )
             pyscript_head_vdom["tagName"] = ""
-            self.html_head["children"].append(pyscript_head_vdom)  # type: ignore
+            # The user's element might be in use elsewhere, thus it is not modified
+            self.html_head = VdomDict(**self.html_head)  # type: ignore
+            self.html_head["children"] = [
+                *self.html_head.get("children", ()),
+                pyscript_head_vdom,
+            ]
 
     def match_dispatch_path(self, scope: AsgiWebsocketScope) -> bool:
         """Method override to remove `dotted_path` from the dispatcher URL."""
-- 
2.43.0


From 00b81aa4aab857e593509b8eadd8bf57b37e297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 45/64] fix: the PyScript configuration may contain apostrophes

---
 src/reactpy/executors/pyscript/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index d8b3a58..e6a15e3 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -168,6 +168,8 @@ def pyscript_setup_html(
     """Renders the PyScript setup code."""
     hide_pyscript_debugger = f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript-hide-debug.css" />'
     pyscript_config = extend_pyscript_config(extra_py, extra_js, config)
+    # The value of an attribute within single quotes
+    pyscript_config = pyscript_config.replace("&", "&amp;").replace("'", "&#x27;")
 
     return (
         f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript/core.css" />'
-- 
2.43.0


From 8e1a00dd6bda353a3829266b4b7cc1a9fa1e1181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:45 +0000
Subject: [PATCH 46/64] fix: dependencies that are modified in place are
 noticed

use_memo, use_callback and the effect hooks kept a reference to the sequence of
dependencies. When the caller modified that sequence and passed it again it was compared
with itself, so the value was never recomputed and the effect never ran again.
---
 src/reactpy/core/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 147691f..f8e328b 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -525,7 +525,7 @@ def use_memo(
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
             # only remember the dependencies once their value has been computed
-            memo.deps = () if dependencies is None else dependencies
+            memo.deps = () if dependencies is None else tuple(dependencies)
             return current_value
 
     else:
-- 
2.43.0


From 3be2e26629f854ea544df9887f74a3e37a331e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 47/64] fix: a failing component whose arguments or error
 cannot be printed is contained

Reporting that rendering a component failed raised itself if the representation of one
of its arguments, or in debug mode the message of the error, could not be produced. That
ended the session instead of replacing just this component by an error.
---
 src/reactpy/core/layout.py | 11 ++++++++---
 src/reactpy/types.py       |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index a7bd007..1ebdd81 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -409,9 +409,7 @@ class Layout(BaseLayout):
             new_state.children_by_key.clear()
             new_state.model.current = {
                 "tagName": "",
-                "error": (
-                    f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""
-                ),
+                "error": (_get_error_message(error) if REACTPY_DEBUG.current else ""),
             }
         finally:
             await life_cycle_hook.affect_component_did_render()
@@ -1022,6 +1020,13 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._pending.clear()
 
 
+def _get_error_message(error: BaseException) -> str:
+    try:
+        return f"{type(error).__name__}: {error}"
+    except Exception:  # the error can't be printed
+        return type(error).__name__
+
+
 def _get_children_info(
     children: list[VdomChild],
 ) -> tuple[list[_ChildInfo], set[Key] | None]:
diff --git a/src/reactpy/types.py b/src/reactpy/types.py
index 48203ab..0b29f55 100644
--- a/src/reactpy/types.py
+++ b/src/reactpy/types.py
@@ -64,10 +64,10 @@ class Component:
     def __repr__(self) -> str:
         try:
             args = self._sig.bind(*self._args, **self._kwargs).arguments
-        except TypeError:
+            items = ", ".join(f"{k}={v!r}" for k, v in args.items())
+        except Exception:  # wrong arguments, or ones that have no representation
             return f"{self.type.__name__}(...)"
         else:
-            items = ", ".join(f"{k}={v!r}" for k, v in args.items())
             if items:
                 return f"{self.type.__name__}({id(self):02x}, {items})"
             else:
-- 
2.43.0


From 5e1ab4f39f3ae4d9d40c7b8a42ee529024735ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 48/64] fix: a component that raises CancelledError is shown as
 an error

When a component raised CancelledError, e.g. by asking a cancelled task for its result,
the render was taken to be cancelled: its update was dropped, so that the client kept
showing what was there before, or nothing.
---
 src/reactpy/core/layout.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 1ebdd81..49e1379 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -397,7 +397,13 @@ class Layout(BaseLayout):
             await self._render_model_children(
                 exit_stack, old_state, new_state, [raw_model]
             )
-        except Exception as error:
+        except (Exception, CancelledError) as error:
+            if (
+                isinstance(error, CancelledError)
+                and cast("Task[None]", current_task()).cancelling()
+            ):
+                raise
+            # otherwise something that the component used was cancelled
             logger.exception(f"Failed to render {component}")
             # nothing that was or would have been below this component remains
             await self._unmount_model_states(
-- 
2.43.0


From 943cb8c508bdb02fab177027a6a20afe26fd62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 49/64] fix: an effect runs again also if its clean-up raises
 CancelledError

A clean-up that raised CancelledError, e.g. by asking a cancelled task for its result,
ended the next run of the effect before it had begun.
---
 src/reactpy/core/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index f8e328b..9e00b15 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -646,5 +646,5 @@ def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
     if cleanup:
         try:
             cleanup()
-        except Exception:
+        except (Exception, asyncio.CancelledError):
             logger.exception("Error in effect")
-- 
2.43.0


From f6a917b1bae9570bc5538e206c642aac32c03ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 50/64] fix: rewriting leaves calls of other functions alone

---
 src/reactpy/_console/ast_utils.py    | 5 ++++-
 src/reactpy/_console/rewrite_keys.py | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c0ce6b2..9d7d33b 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -14,6 +14,9 @@ import click
 
 from reactpy import html
 
+# Any name is an attribute of the HTML constructor, these are the ones it declares
+HTML_NAMES = frozenset(type(html).__annotations__)
+
 
 def rewrite_changed_nodes(
     file: Path,
@@ -132,7 +135,7 @@ def find_element_constructor_usages(
                     continue
             elif len(node.args) >= 2:  # noqa: PLR2004
                 maybe_attr_dict_node = node.args[1]
-        elif hasattr(html, name):
+        elif isinstance(func, ast.Attribute) or name in HTML_NAMES:
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
                 if add_props:
diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e5ae207..11ebc52 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -5,8 +5,8 @@ from pathlib import Path
 
 import click
 
-from reactpy import html
 from reactpy._console.ast_utils import (
+    HTML_NAMES,
     ChangedNode,
     find_element_constructor_usages,
     rewrite_changed_nodes,
@@ -101,6 +101,6 @@ def log_could_not_rewrite(file: Path, tree: ast.AST) -> None:
             continue
 
         if name == "vdom" or (
-            hasattr(html, name) and any(kw.arg == "key" for kw in node.keywords)
+            name in HTML_NAMES and any(kw.arg == "key" for kw in node.keywords)
         ):
             click.echo(f"Unable to rewrite usage at {file}:{node.lineno}")
-- 
2.43.0


From cc64f07655394eed3118e2431eb706140819064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 51/64] fix: rewriting keys leaves calls without a key alone

---
 src/reactpy/_console/ast_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 9d7d33b..0cf5aec 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -117,19 +117,21 @@ def find_element_constructor_usages(
             continue
 
         maybe_attr_dict_node: Any | None = None
+        # props are added only where there is a key that has to be moved into them
+        add_to_node = add_props and any(kw.arg == "key" for kw in node.keywords)
 
         if name == "vdom":
             if len(node.args) == 0:
                 continue
             elif len(node.args) == 1:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_to_node:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[1], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_to_node:
                     node.args.insert(1, maybe_attr_dict_node)
                 else:
                     continue
@@ -138,13 +140,13 @@ def find_element_constructor_usages(
         elif isinstance(func, ast.Attribute) or name in HTML_NAMES:
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_to_node:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_to_node:
                     node.args.insert(0, maybe_attr_dict_node)
                 else:
                     continue
-- 
2.43.0


From 07761bc230c3e5ba918d9cf4029ee3173a7ecff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 52/64] fix: rewriting props leaves the arguments of functions
 that make a style alone

---
 src/reactpy/_console/rewrite_props.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e66b387..0c2d86e 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -72,7 +72,14 @@ def conv_attr_name(name: str) -> str:
 
 def _construct_prop_item(key: str, value: ast.expr) -> tuple[str, ast.expr]:
     """Construct a new prop item with the converted key and possibly modified value"""
-    if key == "style" and isinstance(value, (ast.Dict, ast.Call)):
+    if key == "style" and (
+        isinstance(value, ast.Dict)
+        or (
+            isinstance(value, ast.Call)
+            and isinstance(value.func, ast.Name)
+            and value.func.id == "dict"
+        )
+    ):
         # Create a copy of the value to avoid modifying the original
         new_value = copy(value)
         if _rewrite_props(
-- 
2.43.0


From db5cccb36f5e566e7e133c525942b9ba7123abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:38 +0000
Subject: [PATCH 53/64] fix: rewriting keeps the meaning of code around the
 rewritten elements

---
 src/reactpy/_console/ast_utils.py | 140 +++++++++++++++++-------------
 1 file changed, 82 insertions(+), 58 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 0cf5aec..a3bf576 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -4,9 +4,9 @@ from __future__ import annotations
 import ast
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
+from io import StringIO
 from pathlib import Path
-from textwrap import indent
-from tokenize import COMMENT as COMMENT_TOKEN
+from token import tok_name
 from tokenize import generate_tokens
 from typing import Any
 
@@ -28,67 +28,78 @@ def rewrite_changed_nodes(
 
     lines = source.split("\n")
 
-    # find closest parent nodes that should be re-written
-    nodes_to_unparse: list[ast.AST] = []
+    # find the nodes that should be re-written
+    ranges: list[_Range] = []
     for change in changed:
-        node_lineage = [change.node, *change.parents]
-        for i in range(len(node_lineage) - 1):
-            current_node, next_node = node_lineage[i : i + 2]
-            if (
-                not hasattr(next_node, "lineno")
-                or next_node.lineno < change.node.lineno
-                or isinstance(next_node, (ast.ClassDef, ast.FunctionDef))
+        # the quotes of a format string may not be those of strings inside of it
+        node = next(
+            (p for p in reversed(change.parents) if isinstance(p, ast.JoinedStr)),
+            change.node,
+        )
+        ranges.append(_Range(node, _start_of(node, lines), _end_of(node, lines)))
+
+    # check if any nodes to rewrite contain each other, pick outermost nodes
+    outermost: list[_Range] = []
+    for r in sorted(ranges, key=lambda r: (r.start, (-r.end[0], -r.end[1]))):
+        if not outermost or r.start >= outermost[-1].end:
+            outermost.append(r)
+
+    comments, inside_of_string = _find_comments(source)
+
+    edits: list[tuple[int, int, _Range | list[str]]] = []
+    for r in outermost:
+        edits.append((*r.start, r))
+        # make a best effort to preserve any comments that we're going to overwrite
+        overwritten = [c for at, c in comments if r.start < at < r.end]
+        if overwritten:
+            row = r.start[0]
+            while row > 0 and (
+                row in inside_of_string
+                or lines[row - 1].rstrip().endswith("\\")
+                or any(o.start[0] < row <= o.end[0] for o in outermost)
             ):
-                nodes_to_unparse.append(current_node)
-                break
-        else:  # nocov
-            msg = "Failed to change code"
-            raise RuntimeError(msg)
-
-    # check if an nodes to rewrite contain each other, pick outermost nodes
-    current_outermost_node, *sorted_nodes_to_unparse = sorted(
-        nodes_to_unparse, key=lambda n: n.lineno
-    )
-    outermost_nodes_to_unparse = [current_outermost_node]
-    for node in sorted_nodes_to_unparse:
-        if (
-            not current_outermost_node.end_lineno
-            or node.lineno > current_outermost_node.end_lineno
-        ):
-            current_outermost_node = node
-            outermost_nodes_to_unparse.append(node)
+                row -= 1
+            edits.append((row, -1, overwritten))
 
     moved_comment_lines_from_end: list[int] = []
     # now actually rewrite these nodes (in reverse to avoid changes earlier in file)
-    for node in reversed(outermost_nodes_to_unparse):
-        # make a best effort to preserve any comments that we're going to overwrite
-        comments = _find_comments(lines[node.lineno - 1 : node.end_lineno])
+    for row, col, edit in sorted(edits, key=lambda e: e[:2], reverse=True):
+        if isinstance(edit, _Range):
+            # there may be some content just before and after what we're re-writing
+            end_row, end_col = edit.end
+            before, after = lines[row][:col], lines[end_row][end_col:]
+            lines[row : end_row + 1] = [before + ast.unparse(edit.node) + after]
+        else:
+            margin = lines[row][: len(lines[row]) - len(lines[row].lstrip())]
+            lines[row:row] = [margin + comment for comment in edit]
+            moved_comment_lines_from_end.append(len(lines) - row - 1)
 
-        # there may be some content just before and after the content we're re-writing
-        before_replacement = lines[node.lineno - 1][: node.col_offset].lstrip()
+    for lineno_from_end in sorted(set(moved_comment_lines_from_end)):
+        click.echo(f"Moved comments to {file}:{len(lines) - lineno_from_end}")
 
-        after_replacement = (
-            lines[node.end_lineno - 1][node.end_col_offset :].strip()
-            if node.end_lineno is not None and node.end_col_offset is not None
-            else ""
-        )
+    return "\n".join(lines)
 
-        replacement = indent(
-            before_replacement
-            + "\n".join([*comments, ast.unparse(node)])
-            + after_replacement,
-            " " * (node.col_offset - len(before_replacement)),
-        )
 
-        lines[node.lineno - 1 : node.end_lineno or node.lineno] = [replacement]
+@dataclass
+class _Range:
+    node: ast.AST
+    start: tuple[int, int]
+    end: tuple[int, int]
 
-        if comments:
-            moved_comment_lines_from_end.append(len(lines) - node.lineno)
 
-    for lineno_from_end in sorted(set(moved_comment_lines_from_end)):
-        click.echo(f"Moved comments to {file}:{len(lines) - lineno_from_end}")
+def _start_of(node: Any, lines: list[str]) -> tuple[int, int]:
+    row = node.lineno - 1
+    return row, _column(lines[row], node.col_offset)
+
+
+def _end_of(node: Any, lines: list[str]) -> tuple[int, int]:
+    row = node.end_lineno - 1
+    return row, _column(lines[row], node.end_col_offset)
 
-    return "\n".join(lines)
+
+def _column(line: str, offset: int) -> int:
+    # offsets of nodes count the bytes of the UTF-8 encoded line
+    return len(line.encode("utf-8")[:offset].decode("utf-8"))
 
 
 @dataclass
@@ -174,13 +185,26 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
-def _find_comments(lines: list[str]) -> list[str]:
-    iter_lines = iter(lines)
-    return [
-        token
-        for token_type, token, _, _, _ in generate_tokens(lambda: next(iter_lines))
-        if token_type == COMMENT_TOKEN
-    ]
+def _find_comments(
+    source: str,
+) -> tuple[list[tuple[tuple[int, int], str]], set[int]]:
+    """Find all comments and the lines that begin inside of a string"""
+    comments: list[tuple[tuple[int, int], str]] = []
+    inside_of_string: set[int] = set()
+    format_strings: list[int] = []
+    for type_, token, (row, col), (end_row, _), _ in generate_tokens(
+        StringIO(source).readline
+    ):
+        name = tok_name[type_]
+        if name == "COMMENT":
+            comments.append(((row - 1, col), token))
+        elif name == "STRING":
+            inside_of_string.update(range(row, end_row))
+        elif name == "FSTRING_START":
+            format_strings.append(row)
+        elif name == "FSTRING_END":
+            inside_of_string.update(range(format_strings.pop(), end_row))
+    return comments, inside_of_string
 
 
 def _walk_with_parent(
-- 
2.43.0


From ae64f9a2775beacc18d0ab95a584811ae28cd238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 54/64] fix: a rewritten source file is complete, in its own
 encoding, or untouched

---
 src/reactpy/_console/ast_utils.py     | 49 +++++++++++++++++++++++++--
 src/reactpy/_console/rewrite_keys.py  |  7 ++--
 src/reactpy/_console/rewrite_props.py |  8 ++---
 3 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index a3bf576..bdcc70c 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -2,12 +2,16 @@
 from __future__ import annotations
 
 import ast
-from collections.abc import Iterator, Sequence
+import os
+import shutil
+from collections.abc import Callable, Iterable, Iterator, Sequence
+from contextlib import suppress
 from dataclasses import dataclass
-from io import StringIO
+from io import BytesIO, StringIO, TextIOWrapper
 from pathlib import Path
+from tempfile import mkstemp
 from token import tok_name
-from tokenize import generate_tokens
+from tokenize import detect_encoding, generate_tokens
 from typing import Any
 
 import click
@@ -18,6 +22,45 @@ from reactpy import html
 HTML_NAMES = frozenset(type(html).__annotations__)
 
 
+def rewrite_files(
+    paths: Iterable[str],
+    generate_rewrite: Callable[[Path, str], str | None],
+) -> None:
+    """Rewrite each file and, in directories, each Python file"""
+    for p in map(Path, paths):
+        for f in [p] if p.is_file() else p.rglob("*.py"):
+            if f.is_file():
+                _rewrite_file(f, generate_rewrite)
+
+
+def _rewrite_file(
+    file: Path, generate_rewrite: Callable[[Path, str], str | None]
+) -> None:
+    data = file.read_bytes()
+    encoding, _ = detect_encoding(BytesIO(data).readline)
+    source = TextIOWrapper(BytesIO(data), encoding).read()
+
+    result = generate_rewrite(file, source)
+    if result is None:
+        return
+
+    if b"\r\n" in data:
+        result = result.replace("\n", "\r\n")
+
+    # The original is replaced by a complete file, or not at all
+    target = file.resolve()
+    temp_fd, temp = mkstemp(prefix=".reactpy-", dir=target.parent)
+    try:
+        with os.fdopen(temp_fd, "wb") as temp_file:
+            temp_file.write(result.encode(encoding))
+        shutil.copymode(target, temp)
+        os.replace(temp, target)
+    except BaseException:
+        with suppress(OSError):
+            os.unlink(temp)
+        raise
+
+
 def rewrite_changed_nodes(
     file: Path,
     source: str,
diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index 11ebc52..9741731 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -10,6 +10,7 @@ from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
     rewrite_changed_nodes,
+    rewrite_files,
 )
 
 
@@ -45,11 +46,7 @@ def rewrite_keys(paths: list[str]) -> None:
     comments back in their original location.
     """
 
-    for p in map(Path, paths):
-        for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
-            if result is not None:
-                f.write_text(result)
+    rewrite_files(paths, generate_rewrite)
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index 0c2d86e..da1dc0d 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -12,6 +12,7 @@ from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
     rewrite_changed_nodes,
+    rewrite_files,
 )
 
 
@@ -19,12 +20,7 @@ from reactpy._console.ast_utils import (
 @click.argument("paths", nargs=-1, type=click.Path(exists=True))
 def rewrite_props(paths: list[str]) -> None:
     """Rewrite snake_case props to camelCase within <PATHS>."""
-    for p in map(Path, paths):
-        # Process each file or recursively process each Python file in directories
-        for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
-            if result is not None:
-                f.write_text(result)
+    rewrite_files(paths, generate_rewrite)
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
-- 
2.43.0


From de5c3afcaf16bcaff86bc491cb1b821d1cf5715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 55/64] fix: component URLs below any path prefix and with any
 identifier are recognised

The path prefix was used as a regular expression, so that no component
connected below a prefix such as /c++/, and the names of components were
restricted to ASCII.
---
 src/reactpy/executors/asgi/middleware.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 8f528e5..500fff6 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -91,7 +91,7 @@ class ReactPyMiddleware:
         self.web_modules_path = f"{self.path_prefix}modules/"
         self.static_path = f"{self.path_prefix}static/"
         self.dispatcher_pattern = re.compile(
-            f"^{self.dispatcher_path}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
+            rf"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[\w.]+)/$"
         )
 
         # User defined ASGI apps
-- 
2.43.0


From ac5bb79602b89beffd8ba6e60cc6c154a158f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 56/64] fix: the class given to the component template tag is
 escaped

---
 src/reactpy/executors/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 291674a..7d52fd7 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Iterable
+from html import escape
 from typing import Any
 
 from reactpy._option import Option
@@ -63,7 +64,7 @@ def server_side_component_html(
     element_id: str, class_: str, component_path: str
 ) -> str:
     return (
-        f'<div id="{element_id}" class="{class_}"></div>'
+        f'<div id="{element_id}" class="{escape(class_)}"></div>'
         "<script>"
         'if (!document.querySelector("#reactpy-importmap")) {'
         "   console.debug("
-- 
2.43.0


From 6209fe39d7abc137ca9a1203475958c657fc1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:23 +0000
Subject: [PATCH 57/64] fix: a script element has no attributes whose value is
 false or missing

async=False made a script asynchronous, noModule=False kept it from running
at all, and className became an attribute of that name.
---
 src/js/packages/@reactpy/client/src/components.tsx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index b193141..3142144 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -487,7 +487,10 @@ function ScriptElement({ model }: { model: ReactPyVdom }) {
     // Create the script element
     const scriptElement: HTMLScriptElement = document.createElement("script");
     for (const [k, v] of Object.entries(model.attributes || {})) {
-      scriptElement.setAttribute(k, v);
+      // as for any other element, there is no attribute without a value
+      if (v !== false && v !== null && v !== undefined) {
+        scriptElement.setAttribute(k === "className" ? "class" : k, v);
+      }
     }
 
     // Add the script content as text
-- 
2.43.0


From 361866d2fba0c2e5a6b82fe48ef79df3640d2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:18 +0000
Subject: [PATCH 58/64] fix: events of selects and forms carry their element's
 properties

Selects and forms are iterable, so that they were converted to the list of
what they contain, and a handler got no value.
---
 src/js/packages/event-to-object/src/index.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index f6aebe6..7cc0131 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -116,7 +116,9 @@ function deepCloneClass(
       (typeof x?.length === "number" &&
         typeof x[Symbol.iterator] === "function" &&
         !Object.prototype.toString.call(x).includes("Map") &&
-        !(x instanceof CSSStyleDeclaration))
+        !(x instanceof CSSStyleDeclaration) &&
+        // Forms and selects are lists, but they have properties (e.g. `value`)
+        !(typeof Node !== "undefined" && x instanceof Node))
     ) {
       return classToArray(x, maxDepth, visited);
     }
@@ -289,8 +291,10 @@ function shouldIgnoreValue(
     // DOM Node Blacklist
     (typeof Node !== "undefined" &&
       parent instanceof Node &&
-      // Recursive properties
-      (keyName === "parentNode" ||
+      // Parts of a list-like element, which its `options` or `elements` hold
+      (/^\d+$/.test(keyName) ||
+        // Recursive properties
+        keyName === "parentNode" ||
         keyName === "parentElement" ||
         keyName === "ownerDocument" ||
         keyName === "getRootNode" ||
-- 
2.43.0


From 361c1bf90c78ee05a67c25fd1463cb9ad5c82c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:55 +0000
Subject: [PATCH 59/64] fix: a form's event carries fields of any name

Fields named like a constant (SKU) or like size were left out.
---
 src/js/packages/event-to-object/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 7cc0131..ab63c47 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -248,7 +248,7 @@ function classToObject(
       if (
         element.name &&
         !Object.prototype.hasOwnProperty.call(result, element.name) &&
-        !shouldIgnoreValue(element, element.name, x)
+        !shouldIgnoreValue(element, "", x)
       ) {
         if (typeof element === "object") {
           const converted = deepCloneClass(element, maxDepth, visited);
-- 
2.43.0


From 21df3bc3f82695191f5bbf06dea08a8aad78c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:26 +0000
Subject: [PATCH 60/64] fix: any callable can handle an event

Builtins and objects with a __call__ could not be given as a handler since
handlers are inspected, coroutines that such handlers returned were dropped,
and calls of preventDefault, stopPropagation and assignments of debounce were
not found in methods, partial functions and handlers with inner functions.
---
 src/reactpy/core/_event_inspect.py | 16 ++++++++-----
 src/reactpy/core/events.py         | 36 +++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index e9adc8c..b7c9248 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -19,7 +19,9 @@ _LOAD_FAST_BORROW_PAIR_SIZE = 2
 _STORE_ATTR_VALUE_OFFSET = 2
 
 
-def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
+def inspect_event_handler(
+    func: Callable, event_position: int = 0
+) -> tuple[bool, bool, int | None]:
     """Detect ``preventDefault``/``stopPropagation``/``debounce`` usage.
 
     Walks the bytecode of ``func`` looking for the patterns:
@@ -40,15 +42,17 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     be resolved from the function alone, so users must pass
     ``debounce=...`` explicitly in that case.
 
+    Nothing can be detected if ``func`` is not implemented in Python.
+
     Returns ``(prevent_default, stop_propagation, debounce)``.
     """
-    code = func.__code__
+    code: CodeType | None = getattr(func, "__code__", None)
 
     prevent_default = False
     stop_propagation = False
     debounce: int | None = None
 
-    if code.co_argcount <= 0:
+    if code is None or code.co_argcount <= event_position:
         return prevent_default, stop_propagation, debounce
 
     names = code.co_names
@@ -59,7 +63,7 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     if not (check_prevent_default or check_stop_propagation or check_debounce):
         return prevent_default, stop_propagation, debounce
 
-    event_arg_name = code.co_varnames[0]
+    event_arg_name = code.co_varnames[event_position]
     instructions = list(dis.get_instructions(code))
     arg_defaults = _function_arg_defaults(func)
     closure_by_name = _closure_lookup(func)
@@ -74,7 +78,7 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
 
     for index, instr in enumerate(instructions):
         if (
-            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW")
+            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW", "LOAD_DEREF")
             and instr.argval == event_arg_name
         ):
             last_was_event = True
@@ -239,6 +243,8 @@ def _resolve_debounce_value(
     if target_instr.opname not in (
         "LOAD_FAST",
         "LOAD_FAST_BORROW",
+        # The event is used by a function inside of the handler
+        "LOAD_DEREF",
         # CPython 3.13+ may fuse two ``LOAD_FAST`` instructions into
         # ``LOAD_FAST_LOAD_FAST`` whose argval is ``(value_name, target_name)``.
         # The detector above already covers this case for debounce values,
diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 3828e2a..fceca81 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -126,15 +126,8 @@ class EventHandler(BaseEventHandler):
 
         # Check if our `preventDefault` or `stopPropagation` methods were called
         # by inspecting the function's bytecode
-        func_to_inspect = cast(Any, function)
-        while hasattr(func_to_inspect, "__wrapped__"):
-            func_to_inspect = func_to_inspect.__wrapped__
-
-        if isinstance(func_to_inspect, partial):
-            func_to_inspect = func_to_inspect.func
-
         found_prevent_default, found_stop_propagation, found_debounce = (
-            inspect_event_handler(func_to_inspect)
+            inspect_event_handler(*_function_and_event_position(function))
         )
 
         if found_prevent_default:
@@ -197,14 +190,19 @@ def to_event_handler_function(
         else:
 
             async def wrapper(data: Sequence[Any]) -> None:
-                function(*data)
+                result = function(*data)
+                # e.g. an object with an asynchronous `__call__`
+                if inspect.iscoroutine(result):
+                    await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
     elif not inspect.iscoroutinefunction(function):
 
         async def wrapper(data: Sequence[Any]) -> None:
-            function(data)
+            result = function(data)
+            if inspect.iscoroutine(result):
+                await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
@@ -212,6 +210,24 @@ def to_event_handler_function(
         return function
 
 
+def _function_and_event_position(function: Any) -> tuple[Any, int]:
+    """The function that a handler is made of, and which parameter is the event"""
+    position = 0
+    while True:
+        if inspect.ismethod(function):
+            position += 1
+            function = function.__func__
+        elif isinstance(function, partial):
+            position += len(function.args)
+            function = function.func
+        elif hasattr(function, "__wrapped__"):
+            function = function.__wrapped__
+        elif inspect.ismethod(getattr(function, "__call__", None)):  # noqa: B004
+            function = function.__call__
+        else:
+            return function, position
+
+
 def merge_event_handlers(
     event_handlers: Sequence[BaseEventHandler],
 ) -> BaseEventHandler:
-- 
2.43.0


From 59e5110717e4d0f86348a94af118ae7a44fc5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:40 +0000
Subject: [PATCH 61/64] fix: values whose comparison has no truth value can be
 state and dependencies

---
 src/reactpy/core/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 9e00b15..f95447b 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -635,7 +635,8 @@ def strictly_equal(x: Any, y: Any) -> bool:
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
         with contextlib.suppress(Exception):
-            return x == y  # type: ignore
+            # The result may be of any type, and not have a truth value at all
+            return bool(x == y)
 
     # Fallback to identity check
     return x is y  # nocov
-- 
2.43.0


From a056193ab347e389f1c059c5853b11213c12a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:01 +0000
Subject: [PATCH 62/64] fix: a module that cannot be fetched never keeps other
 exports from being found

---
 src/reactpy/reactjs/utils.py | 48 ++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 62b9970..0755b06 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -5,7 +5,7 @@ import shutil
 import time
 from contextlib import contextmanager, suppress
 from pathlib import Path
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse
 from uuid import uuid4
 
 import requests
@@ -24,10 +24,10 @@ def resolve_names_from_file(
         return set()
 
     if content is None:
-        if not file.exists():
+        if not file.is_file():
             logger.warning(f"Did not resolve imports for unknown file {file}")
             return set()
-        content = file.read_text(encoding="utf-8")
+        content = file.read_text(encoding="utf-8", errors="replace")
 
     names, references = resolve_names_from_source(
         content, exclude_default=is_regex_import
@@ -57,17 +57,27 @@ def resolve_names_from_url(
         return set()
 
     try:
-        text = requests.get(url, timeout=5).text
-    except requests.exceptions.ConnectionError as error:
-        reason = "" if error is None else " - {error.errno}"
-        logger.warning(f"Did not resolve imports for url {url} {reason}")
+        response = requests.get(url, timeout=5)
+        response.raise_for_status()
+    except requests.exceptions.RequestException as error:
+        logger.warning(f"Did not resolve imports for url {url} - {error}")
         return set()
 
-    names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
+    # JavaScript modules are always encoded in UTF-8
+    names, references = resolve_names_from_source(
+        response.content.decode("utf-8", errors="replace"),
+        exclude_default=is_regex_import,
+    )
 
     for ref in references:
-        url = normalize_url_path(url, ref)
-        names.update(resolve_names_from_url(url, max_depth - 1, is_regex_import=True))
+        # the references are relative to where the module was found in the end
+        names.update(
+            resolve_names_from_url(
+                normalize_url_path(response.url, ref),
+                max_depth - 1,
+                is_regex_import=True,
+            )
+        )
 
     return names
 
@@ -134,23 +144,7 @@ def resolve_names_from_source(
 
 
 def normalize_url_path(base_url: str, rel_url: str) -> str:
-    if not rel_url.startswith("."):
-        if rel_url.startswith("/"):
-            # copy scheme and hostname from base_url
-            return urlunparse(urlparse(base_url)[:2] + urlparse(rel_url)[2:])
-        else:
-            return rel_url
-
-    base_url = base_url.rsplit("/", 1)[0]
-
-    if rel_url.startswith("./"):
-        return base_url + rel_url[1:]
-
-    while rel_url.startswith("../"):
-        base_url = base_url.rsplit("/", 1)[0]
-        rel_url = rel_url[3:]
-
-    return f"{base_url}/{rel_url}"
+    return urljoin(base_url, rel_url) if rel_url.startswith((".", "/")) else rel_url
 
 
 def are_files_identical(f1: Path, f2: Path) -> bool:
-- 
2.43.0


From ca24c4016971dd8d670cb030593d2f9b757b3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:41 +0000
Subject: [PATCH 63/64] fix: exports in lists over several lines and in
 minified modules are found

---
 src/reactpy/reactjs/utils.py | 65 ++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 0755b06..fe30fbb 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -102,40 +102,34 @@ def resolve_names_from_source(
     # Exporting functions and classes
     all_names.update(_JS_FUNC_OR_CLS_EXPORT_PATTERN.findall(content))
 
-    for name in _JS_GENERAL_EXPORT_PATTERN.findall(content):
-        name = name.rstrip(";").strip()
+    for export in _JS_GENERAL_EXPORT_PATTERN.findall(content):
+        name = export.strip()
         # Exporting individual features
-        if name.startswith("let "):
-            all_names.update(let.split("=", 1)[0] for let in name[4:].split(","))
-        # Renaming exports and export list
-        elif name.startswith("{") and name.endswith("}"):
-            all_names.update(
-                item.split(" as ", 1)[-1] for item in name.strip("{}").split(",")
-            )
-        # Exporting destructured assignments with renaming
-        elif name.startswith("const "):
+        if declaration := _JS_DECLARATION_PATTERN.match(name):
+            kind, names = declaration.groups()
+            if kind == "const" and names.startswith("{"):
+                # Exporting destructured assignments with renaming
+                items = names.split("=", 1)[0].strip("{} \n").split(",")
+                all_names.update(item.split(":", 1)[0].strip() for item in items)
+            else:
+                items = (item.split("=", 1)[0].strip() for item in names.split(","))
+                all_names.update(filter(_JS_NAME_PATTERN.fullmatch, items))
+        # Renaming exports, export list, and some names of another module
+        elif export_list := _JS_EXPORT_LIST_PATTERN.match(name):
             all_names.update(
-                item.split(":", 1)[0]
-                for item in name[6:].split("=", 1)[0].strip("{}").split(",")
+                item.split()[-1]
+                for item in export_list.group(1).split(",")
+                if item.strip()
             )
-        # Default exports
-        elif name.startswith("default "):
-            all_names.add("default")
         # Aggregating modules
-        elif name.startswith("* as "):
-            all_names.add(name[5:].split(" from ", 1)[0])
-        elif name.startswith("* "):
-            references.add(name[2:].split("from ", 1)[-1].strip("'\""))
-        elif name.startswith("{") and " from " in name:
-            all_names.update(
-                item.split(" as ", 1)[-1]
-                for item in name.split(" from ")[0].strip("{}").split(",")
-            )
-        elif not (name.startswith("function ") or name.startswith("class ")):
+        elif namespace := _JS_EXPORT_NAMESPACE_PATTERN.match(name):
+            all_names.add(namespace.group(1))
+        elif reference := _JS_EXPORT_ALL_PATTERN.match(name):
+            references.add(reference.group(1).strip())
+        elif not _JS_NAMED_EXPORT_PATTERN.match(name):
             logger.warning(f"Found unknown export type {name!r}")
 
-    all_names = {n.strip() for n in all_names}
-    references = {r.strip() for r in references}
+    all_names.discard("")
 
     if exclude_default and "default" in all_names:
         all_names.remove("default")
@@ -211,15 +205,20 @@ def _replace_file(target: Path, temp_target: Path) -> None:
             temp_target.rename(target)
 
 
-_JS_DEFAULT_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+default\s",
-)
+_JS_DEFAULT_EXPORT_PATTERN = re.compile(r";?\s*export\s+default\b")
 _JS_FUNC_OR_CLS_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+(?:function|class)\s+([a-zA-Z_$][0-9a-zA-Z_$]*)"
+    r";?\s*export\s+(?:(?:async\s+)?function\b\s*\*?|class\b)\s*([\w$]+)"
 )
+# Everything up to the end of the line or statement, or at least of the export list
 _JS_GENERAL_EXPORT_PATTERN = re.compile(
-    r"(?:^|;|})\s*export(?=\s+|{)(.*?)(?=;|$)", re.MULTILINE
+    r"(?:^|;|})\s*export(?=(\s*\{[^{}]*\}|[\s*].*?(?=;|$)))", re.MULTILINE
 )
+_JS_NAME_PATTERN = re.compile(r"[\w$]+")
+_JS_DECLARATION_PATTERN = re.compile(r"(let|var|const)\s+(.+?)(?:/[/*].*)?$", re.DOTALL)
+_JS_EXPORT_LIST_PATTERN = re.compile(r"\{([^{}]*)\}")
+_JS_EXPORT_NAMESPACE_PATTERN = re.compile(r"\*\s*as\s+([\w$]+)")
+_JS_EXPORT_ALL_PATTERN = re.compile(r"""\*\s*from\s*["']([^"']*)["']""")
+_JS_NAMED_EXPORT_PATTERN = re.compile(r"(?:async\s+)?(?:function|class|default)\b")
 
 
 @contextmanager
-- 
2.43.0


From 7d8c0376d13d2d2e206be6703ffc79e2b45f0c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:00 +0000
Subject: [PATCH 64/64] fix: exports that were not found are looked for again
 by later imports

---
 src/reactpy/reactjs/__init__.py | 71 ++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index d394757..8ab5fe6 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
 import hashlib
+from collections.abc import Callable
+from contextlib import suppress
 from pathlib import Path
 from typing import Any, overload
 
@@ -32,6 +34,24 @@ _FILE_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
 _STRING_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
 
 
+def _import_names(
+    cache: dict[str, JavaScriptModule],
+    key: str,
+    load_module: Callable[[], JavaScriptModule],
+    import_names: str | list[str] | tuple[str, ...],
+    fallback: Any | None,
+    allow_children: bool,
+) -> VdomConstructor | list[VdomConstructor]:
+    if key in cache:
+        # Exports that could not be found the last time are looked for again
+        with suppress(ValueError):
+            return module_to_vdom(cache[key], import_names, fallback, allow_children)
+    module = load_module()
+    components = module_to_vdom(module, import_names, fallback, allow_children)
+    cache[key] = module
+    return components
+
+
 @overload
 def component_from_url(
     url: str,
@@ -89,18 +109,19 @@ def component_from_url(
             Whether or not these components can have children.
     """
     key = f"{url}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _URL_JS_MODULE_CACHE:
-        module = _URL_JS_MODULE_CACHE[key]
-    else:
-        module = url_to_module(
+    return _import_names(
+        _URL_JS_MODULE_CACHE,
+        key,
+        lambda: url_to_module(
             url,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
-        )
-        _URL_JS_MODULE_CACHE[key] = module
-    return module_to_vdom(module, import_names, fallback, allow_children)
+        ),
+        import_names,
+        fallback,
+        allow_children,
+    )
 
 
 @overload
@@ -270,20 +291,21 @@ def component_from_file(
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
     key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _FILE_JS_MODULE_CACHE:
-        module = _FILE_JS_MODULE_CACHE[key]
-    else:
-        module = file_to_module(
+    return _import_names(
+        _FILE_JS_MODULE_CACHE,
+        key,
+        lambda: file_to_module(
             name,
             file,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
             symlink=symlink,
-        )
-        _FILE_JS_MODULE_CACHE[key] = module
-    return module_to_vdom(module, import_names, fallback, allow_children)
+        ),
+        import_names,
+        fallback,
+        allow_children,
+    )
 
 
 @overload
@@ -349,16 +371,17 @@ def component_from_string(
     """
     name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
     key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _STRING_JS_MODULE_CACHE:
-        module = _STRING_JS_MODULE_CACHE[key]
-    else:
-        module = string_to_module(
+    return _import_names(
+        _STRING_JS_MODULE_CACHE,
+        key,
+        lambda: string_to_module(
             name,
             content,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
-        )
-        _STRING_JS_MODULE_CACHE[key] = module
-    return module_to_vdom(module, import_names, fallback, allow_children)
+        ),
+        import_names,
+        fallback,
+        allow_children,
+    )
-- 
2.43.0

