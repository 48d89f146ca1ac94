From ffbdc4615bfdbdbab7408e06fc7849384703b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 01/72] fix: hand out updates in the order their renders
 completed

Several finished renders were picked from a set in arbitrary order, so a client
could end up showing an outdated view, and cancelling render() while it waited lost a pending
update. Finished render tasks are now queued in completion order.
---
 src/reactpy/core/layout.py | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 18253aa..e7b9add 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from asyncio import (
-    FIRST_COMPLETED,
     CancelledError,
     Queue,
     Task,
@@ -9,7 +8,6 @@ from asyncio import (
     current_task,
     get_running_loop,
     sleep,
-    wait,
 )
 from collections import Counter
 from collections.abc import Callable
@@ -28,8 +26,6 @@ from typing import (
 from uuid import uuid4
 from weakref import ref as weakref
 
-from anyio import Semaphore
-
 from reactpy.config import (
     REACTPY_ASYNC_RENDERING,
     REACTPY_CHECK_VDOM_SPEC,
@@ -73,14 +69,9 @@ class Layout(BaseLayout):
         self._render_tasks_by_id: dict[
             _LifeCycleStateId, Task[LayoutUpdateMessage]
         ] = {}
-        self._render_tasks_ready: Semaphore = Semaphore(0)
-        # Maps a running render task back to the component it belongs to.
-        # Used by the stale-render detection in `_parallel_render` to drop
-        # out-of-order completions when async rendering is enabled and a
-        # newer render for the same component has already been scheduled.
-        self._render_task_to_lcs_id: dict[
-            Task[LayoutUpdateMessage], _LifeCycleStateId
-        ] = {}
+        # Finished render tasks in the order they completed. Updates must be handed
+        # out in this order, since each one is relative to those before it.
+        self._finished_render_tasks: Queue[Task[LayoutUpdateMessage]] = Queue()
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
         # may carry an optional ``seq`` field (assigned by the client)
@@ -122,7 +113,6 @@ class Layout(BaseLayout):
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
-        del self._render_task_to_lcs_id
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
@@ -212,13 +202,7 @@ class Layout(BaseLayout):
     async def _parallel_render(self) -> LayoutUpdateMessage:
         """Await to fetch the first completed render within our asyncio task group."""
         while True:
-            await self._render_tasks_ready.acquire()
-
-            if not self._render_tasks:  # nocov
-                continue
-
-            done, _ = await wait(self._render_tasks, return_when=FIRST_COMPLETED)
-            update_task: Task[LayoutUpdateMessage] = done.pop()
+            update_task = await self._finished_render_tasks.get()
             self._render_tasks.discard(update_task)
 
             try:
@@ -315,16 +299,12 @@ class Layout(BaseLayout):
         self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state
 
         # If this component is scheduled to render, we can cancel that task since we
-        # are rendering it now.  We keep the cancelled task in ``_render_tasks`` so
-        # the semaphore token that ``_schedule_render_task`` released is still
-        # paired with an entry the consumer can pick up.  ``asyncio.wait`` returns
-        # cancelled tasks in the done set, and the ``CancelledError`` catch in
-        # ``_parallel_render`` drains the token naturally.
+        # are rendering it now. The ``CancelledError`` catch in ``_parallel_render``
+        # discards the cancelled task.
         if life_cycle_state.id in self._render_tasks_by_id:
             task = self._render_tasks_by_id[life_cycle_state.id]
             if task is not current_task():
                 del self._render_tasks_by_id[life_cycle_state.id]
-                self._render_task_to_lcs_id.pop(task, None)
                 task.cancel()
 
         await life_cycle_hook.affect_component_will_render(component)
@@ -590,10 +570,9 @@ class Layout(BaseLayout):
             )
         else:
             task = create_task(self._create_layout_update(model_state))
-            self._render_task_to_lcs_id[task] = lcs_id
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
-            self._render_tasks_ready.release()
+            task.add_done_callback(self._finished_render_tasks.put_nowait)
 
     def __repr__(self) -> str:
         return f"{type(self).__name__}({self.root})"
-- 
2.43.0


From 24cae874a38c310f9319a028d56244dee382c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 02/72] fix: do not render a component while one of its
 ancestors is rendering

With asynchronous rendering a component could render while an ancestor was moving,
re-rendering or unmounting it: updates addressed nodes the client did not have yet, the ancestor's
update carried an outdated child, cancelled renders lost clean-ups, and a render pending for a
removed component ended the session with 'detached model state'. Discrete component trees
still render concurrently.
---
 src/reactpy/core/layout.py | 62 +++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index e7b9add..5783c6c 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -8,6 +8,7 @@ from asyncio import (
     current_task,
     get_running_loop,
     sleep,
+    wait,
 )
 from collections import Counter
 from collections.abc import Callable
@@ -72,6 +73,8 @@ class Layout(BaseLayout):
         # Finished render tasks in the order they completed. Updates must be handed
         # out in this order, since each one is relative to those before it.
         self._finished_render_tasks: Queue[Task[LayoutUpdateMessage]] = Queue()
+        # The component each render task in progress is rendering.
+        self._active_renders: dict[Task[LayoutUpdateMessage], _ModelState] = {}
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
         # may carry an optional ``seq`` field (assigned by the client)
@@ -113,6 +116,7 @@ class Layout(BaseLayout):
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
+        del self._active_renders
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
@@ -210,6 +214,30 @@ class Layout(BaseLayout):
             except CancelledError:  # nocov
                 continue
 
+    async def _run_render_task(self, lcs_id: _LifeCycleStateId) -> LayoutUpdateMessage:
+        """Render a component as soon as no related component is being rendered.
+
+        Discrete component trees render concurrently, but a component must not render
+        at the same time as one of its ancestors. The ancestor may be about to move,
+        re-render or unmount it.
+        """
+        task = cast("Task[LayoutUpdateMessage]", current_task())
+        while True:
+            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
+            related_tasks = [
+                other_task
+                for other_task, other_state in self._active_renders.items()
+                if _is_related(model_state, other_state)
+            ]
+            if not related_tasks:
+                break
+            await wait(related_tasks)
+        self._active_renders[task] = model_state
+        try:
+            return await self._create_layout_update(model_state)
+        finally:
+            del self._active_renders[task]
+
     async def _create_layout_update(
         self, old_state: _ModelState
     ) -> LayoutUpdateMessage:
@@ -553,6 +581,10 @@ class Layout(BaseLayout):
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
                 del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
+                # A render which is still pending must not revive the component
+                task = self._render_tasks_by_id.pop(life_cycle_state.id, None)
+                if task is not None:
+                    task.cancel()
                 await life_cycle_state.hook.affect_component_will_unmount()
 
             to_unmount.extend(model_state.children_by_key.values())
@@ -561,15 +593,16 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
-        try:
-            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
-        except KeyError:
+        if lcs_id not in self._model_states_by_life_cycle_state_id:
             logger.debug(
                 "Did not render component with model state ID "
                 f"{lcs_id!r} - component already unmounted"
             )
-        else:
-            task = create_task(self._create_layout_update(model_state))
+            return None
+        task = self._render_tasks_by_id.get(lcs_id)
+        # A render that did not begin yet is going to cover this change as well
+        if task is None or task.done() or task in self._active_renders:
+            task = create_task(self._run_render_task(lcs_id))
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
             task.add_done_callback(self._finished_render_tasks.put_nowait)
@@ -578,6 +611,25 @@ class Layout(BaseLayout):
         return f"{type(self).__name__}({self.root})"
 
 
+def _is_related(first: _ModelState, second: _ModelState) -> bool:
+    """Whether the given component states are the same or one contains the other"""
+    return first.life_cycle_state.id in _lineage(
+        second
+    ) or second.life_cycle_state.id in _lineage(first)
+
+
+def _lineage(model_state: _ModelState) -> set[_LifeCycleStateId]:
+    """The component with the given state and all the components which contain it"""
+    ids: set[_LifeCycleStateId] = set()
+    current: _ModelState | None = model_state
+    while current is not None:
+        if current.is_component_state:
+            ids.add(current.life_cycle_state.id)
+        # the root state is the only one that has no parent
+        current = current.parent if hasattr(current, "_parent_ref") else None
+    return ids
+
+
 def _new_root_model_state(
     component: Component, schedule_render: Callable[[_LifeCycleStateId], None]
 ) -> _ModelState:
-- 
2.43.0


From 1e5389cb6adad1961b323d153447b8cb3d50a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 03/72] fix: unmount everything below a component that failed
 to render

The children a component had displayed, and those it rendered before it failed, stayed
mounted: their effects were never cleaned up, their event handlers kept running and a later
change of their state ended the session.
---
 src/reactpy/core/_life_cycle_hook.py |  2 ++
 src/reactpy/core/layout.py           | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index cf77742..526ded1 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -241,6 +241,8 @@ class LifeCycleHook:
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
+        # effects which did not start yet have nothing to act upon any more
+        self._effect_funcs.clear()
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 5783c6c..733096a 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -354,6 +354,12 @@ class Layout(BaseLayout):
                     f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""
                 ),
             }
+            # Nothing below the component is displayed any more
+            failed_states = list(new_state.children_by_key.values())
+            if old_state is not None:
+                failed_states.extend(old_state.children_by_key.values())
+            new_state.children_by_key.clear()
+            await self._unmount_model_states(failed_states)
         finally:
             await life_cycle_hook.affect_component_did_render()
 
@@ -377,6 +383,9 @@ class Layout(BaseLayout):
         else:
             new_state = _update_element_model_state(old_state, parent, index)
 
+        # Make this reachable from the parent even if a descendant fails to render
+        parent.children_by_key[key] = new_state
+
         try:
             new_state.model.current = {"tagName": raw_model["tagName"]}
         except Exception as e:  # nocov
@@ -576,16 +585,21 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             for target in model_state.targets_by_event.values():
-                del self._event_handlers[target]
+                self._event_handlers.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-                del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
+                # A component that failed to render may be given in its state before
+                # and after the failure
+                is_mounted = self._model_states_by_life_cycle_state_id.pop(
+                    life_cycle_state.id, None
+                )
                 # A render which is still pending must not revive the component
                 task = self._render_tasks_by_id.pop(life_cycle_state.id, None)
                 if task is not None:
                     task.cancel()
-                await life_cycle_state.hook.affect_component_will_unmount()
+                if is_mounted:
+                    await life_cycle_state.hook.affect_component_will_unmount()
 
             to_unmount.extend(model_state.children_by_key.values())
 
-- 
2.43.0


From a4660b051bf115a7ccfba7b11e2c8d6981b5ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 04/72] fix: let a component recover after its first render
 failed between hooks

State of hooks which the failed render did not reach was never created, so every later
render raised IndexError.
---
 src/reactpy/core/_life_cycle_hook.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 526ded1..f23d607 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -139,7 +139,6 @@ class LifeCycleHook:
         "_effect_stops",
         "_effect_tasks",
         "_render_access",
-        "_rendered_atleast_once",
         "_schedule_render_callback",
         "_scheduled_render",
         "_state",
@@ -155,7 +154,6 @@ class LifeCycleHook:
         self._context_providers: dict[Context[Any], ContextProvider[Any]] = {}
         self._schedule_render_callback = schedule_render
         self._scheduled_render = False
-        self._rendered_atleast_once = False
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
@@ -181,8 +179,8 @@ class LifeCycleHook:
         Otherwise, the state is retrieved from the tuple. This allows state to be
         preserved across renders.
         """
-        if not self._rendered_atleast_once:
-            # since we're not initialized yet we're just appending state
+        if self._current_state_index >= len(self._state):
+            # this state was not reached yet (an earlier render may have failed before)
             result = function()
             self._state.append(result)
         else:
@@ -227,7 +225,6 @@ class LifeCycleHook:
     async def affect_component_did_render(self) -> None:
         """The component completed a render"""
         self.unset_current()
-        self._rendered_atleast_once = True
         self._current_state_index = 0
         self._render_access.release()
         del self.component
-- 
2.43.0


From 86a65a410373f66049d3e50a8da1b4961a7295ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 05/72] fix: closing a layout cleans up everything whatever is
 in progress

Closing raised when tasks came or went or had failed meanwhile, components of a cancelled
render stayed mounted with their effects running, effects lost their clean-up when an unmount
was cancelled, and tasks started while closing were left behind.
---
 src/reactpy/core/_life_cycle_hook.py |  5 ++--
 src/reactpy/core/layout.py           | 36 ++++++++++++++++++----------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index f23d607..830be92 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Event, Task, create_task, gather
+from asyncio import Event, Task, create_task, gather, shield
 from collections.abc import Callable
 from contextvars import ContextVar, Token
 from typing import Any, Protocol, TypeVar
@@ -244,7 +244,8 @@ class LifeCycleHook:
             stop.set()
         self._effect_stops.clear()
         try:
-            await gather(*self._effect_tasks)
+            # effects must be able to clean up even if the unmounting is cancelled
+            await shield(gather(*self._effect_tasks))
         except Exception:
             logger.exception("Error in effect")
         finally:
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 733096a..e06b34d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -6,7 +6,9 @@ from asyncio import (
     Task,
     create_task,
     current_task,
+    gather,
     get_running_loop,
+    shield,
     sleep,
     wait,
 )
@@ -94,20 +96,24 @@ class Layout(BaseLayout):
     async def __aexit__(
         self, exc_type: type[Exception], exc_value: Exception, traceback: TracebackType
     ) -> None:
-        root_csid = self._root_life_cycle_state_id
-        root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
+        # Clean up everything even if whoever is closing the layout is cancelled meanwhile
+        await shield(create_task(self._close()))
 
-        for t in self._render_tasks:
-            t.cancel()
-            with suppress(CancelledError):
-                await t
-
-        for t in self._event_processing_tasks.values():
-            t.cancel()
-            with suppress(CancelledError):
-                await t
+    async def _close(self) -> None:
+        await self._cancel_tasks()
 
-        await self._unmount_model_states([root_model_state])
+        root_csid = self._root_life_cycle_state_id
+        await self._unmount_model_states(
+            [self._model_states_by_life_cycle_state_id[root_csid]]
+        )
+        # A render that was cancelled may have left components which are not reachable
+        # from the root
+        while self._model_states_by_life_cycle_state_id:
+            model_states = self._model_states_by_life_cycle_state_id.values()
+            await self._unmount_model_states([next(iter(model_states))])
+
+        # Effects may have caused new ones
+        await self._cancel_tasks()
         await self._rendering_queue.close()
 
         # delete attributes here to avoid access after exiting context manager
@@ -121,6 +127,12 @@ class Layout(BaseLayout):
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
 
+    async def _cancel_tasks(self) -> None:
+        tasks = {*self._render_tasks, *self._event_processing_tasks.values()}
+        for t in tasks:
+            t.cancel()
+        await gather(*tasks, return_exceptions=True)
+
     async def deliver(self, event: LayoutEventMessage | dict[str, Any]) -> None:
         """Dispatch an event to the targeted handler"""
         # It is possible for an element in the frontend to produce an event
-- 
2.43.0


From 979cd38afa38e62bb086927c43ab057ecd7c81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 06/72] fix: wait for the clean-up of every effect even if one
 of them failed

---
 src/reactpy/core/_life_cycle_hook.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 830be92..3b072ea 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -245,9 +245,10 @@ class LifeCycleHook:
         self._effect_stops.clear()
         try:
             # effects must be able to clean up even if the unmounting is cancelled
-            await shield(gather(*self._effect_tasks))
-        except Exception:
-            logger.exception("Error in effect")
+            results = await shield(gather(*self._effect_tasks, return_exceptions=True))
+            for result in results:
+                if isinstance(result, Exception):
+                    logger.error("Error in effect", exc_info=result)
         finally:
             self._effect_tasks.clear()
 
-- 
2.43.0


From 098d592ce6667e6602af3af4df6273982ad43316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 07/72] fix: run effects one at a time and clean up each of
 them exactly once

An asynchronous effect that ended late could overwrite the bookkeeping of its successor, which
was then never cancelled or had its clean-up dropped; a clean-up that raised was run again; and
every run of an effect left a task behind until its component was unmounted.
---
 src/reactpy/core/_life_cycle_hook.py | 41 ++++++++------
 src/reactpy/core/hooks.py            | 85 +++++++++++++++-------------
 2 files changed, 69 insertions(+), 57 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 3b072ea..38796d2 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -136,8 +136,7 @@ class LifeCycleHook:
         "_context_providers",
         "_current_state_index",
         "_effect_funcs",
-        "_effect_stops",
-        "_effect_tasks",
+        "_effects",
         "_render_access",
         "_schedule_render_callback",
         "_scheduled_render",
@@ -157,8 +156,7 @@ class LifeCycleHook:
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
-        self._effect_tasks: list[Task[None]] = []
-        self._effect_stops: list[Event] = []
+        self._effects: list[tuple[Event, Task[None]]] = []
         self._render_access = Semaphore(1)  # ensure only one render at a time
 
     def schedule_render(self) -> None:
@@ -231,26 +229,35 @@ class LifeCycleHook:
 
     async def affect_layout_did_render(self) -> None:
         """The layout completed a render"""
-        stop = Event()
-        self._effect_stops.append(stop)
-        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)
+        if not self._effect_funcs:
+            return
+        # forget effects which have been stopped, but keep those whose error is not
+        # logged yet
+        self._effects = [
+            (stop, task)
+            for stop, task in self._effects
+            if not (task.done() and (task.cancelled() or not task.exception()))
+        ]
+        for effect_func in self._effect_funcs:
+            stop = Event()
+            self._effects.append((stop, create_task(effect_func(stop))))
         self._effect_funcs.clear()
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
         # effects which did not start yet have nothing to act upon any more
         self._effect_funcs.clear()
-        for stop in self._effect_stops:
+        effects = self._effects[:]
+        self._effects.clear()
+        for stop, _ in effects:
             stop.set()
-        self._effect_stops.clear()
-        try:
-            # effects must be able to clean up even if the unmounting is cancelled
-            results = await shield(gather(*self._effect_tasks, return_exceptions=True))
-            for result in results:
-                if isinstance(result, Exception):
-                    logger.error("Error in effect", exc_info=result)
-        finally:
-            self._effect_tasks.clear()
+        # effects must be able to clean up even if the unmounting is cancelled
+        results = await shield(
+            gather(*(task for _, task in effects), return_exceptions=True)
+        )
+        for result in results:
+            if isinstance(result, Exception):
+                logger.error("Error in effect", exc_info=result)
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5aacbf5..f489a40 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -101,6 +101,7 @@ _SyncEffectFunc: TypeAlias = "Callable[[], _EffectCleanFunc | None]"
 _AsyncEffectFunc: TypeAlias = (
     "Callable[[], Coroutine[None, None, _EffectCleanFunc | None]]"
 )
+_EffectRun: TypeAlias = "tuple[asyncio.Event, asyncio.Task[None]]"
 _EffectApplyFunc: TypeAlias = "_SyncEffectFunc | _AsyncEffectFunc"
 
 
@@ -146,6 +147,7 @@ def use_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
+    latest_stop: Ref[asyncio.Event | None] = use_ref(None)
 
     def decorator(func: _SyncEffectFunc) -> None:
         if inspect.iscoroutinefunction(func):
@@ -155,7 +157,13 @@ def use_effect(
             )
 
         async def effect(stop: asyncio.Event) -> None:
+            # Make sure we always clean up the previous effect's resources
+            if latest_stop.current:
+                latest_stop.current.set()
+            latest_stop.current = stop
             run_effect_cleanup(cleanup_func)
+            if stop.is_set():
+                return
 
             # Execute the effect and store the clean-up function
             cleanup_func.current = func()
@@ -165,7 +173,8 @@ def use_effect(
 
             # Run the clean-up function when the effect is stopped,
             # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            if latest_stop.current is stop:
+                run_effect_cleanup(cleanup_func)
 
         return memoize(lambda: hook.add_effect(effect))
 
@@ -227,60 +236,44 @@ def use_async_effect(
     hook = HOOK_STACK.current_hook()
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
-    cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
-    pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
+    latest_run: Ref[_EffectRun | None] = use_ref(None)
 
     def decorator(func: _AsyncEffectFunc) -> None:
         async def effect(stop: asyncio.Event) -> None:
             # Make sure we always clean up the previous effect's resources
-            if pending_task.current:
-                previous_task = pending_task.current
-                if not shield:
-                    previous_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await previous_task
-                if pending_task.current is previous_task:
-                    pending_task.current = None
-
-            run_effect_cleanup(cleanup_func)
+            await stop_previous_effect_run(latest_run, stop)
+            if stop.is_set():
+                return
 
-            # Execute the effect and store the clean-up function.
-            # We run this in a task so it can be cancelled if the stop signal
+            # We run the effect in a task so it can be cancelled if the stop signal
             # is set before the effect completes.
             task = asyncio.create_task(func())
-            pending_task.current = task
 
             # Wait for either the effect to complete or the stop signal
             stop_task = asyncio.create_task(stop.wait())
-            done, _ = await asyncio.wait(
+            await asyncio.wait(
                 [task, stop_task],
                 return_when=asyncio.FIRST_COMPLETED,
             )
 
-            # If the effect completed first, store the cleanup function
-            if task in done:
-                pending_task.current = None
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = task.result()
-                # Cancel the stop task since we don't need it anymore
-                stop_task.cancel()
+            # Stop signal came first - cancel the effect task, but
+            # prevent task cancellation if the user enabled shielding
+            if not task.done() and not shield:
+                task.cancel()
+
+            cleanup_func: _EffectCleanFunc | None = None
+            try:
                 with contextlib.suppress(asyncio.CancelledError):
-                    await stop_task
+                    cleanup_func = await task
                 # Now wait for the stop signal to run cleanup
                 await stop.wait()
-            # Stop signal came first - cancel the effect task
-            else:
-                # Prevent task cancellation if the user enabled shielding
-                if not shield:
-                    task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = await task
-                if pending_task.current is task:
-                    pending_task.current = None
+            finally:
+                # Cancel the stop task since we don't need it anymore
+                stop_task.cancel()
 
-            # Run the clean-up function when the effect is stopped,
-            # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            # Run the clean-up function when the effect is stopped
+            if cleanup_func:
+                cleanup_func()
 
         return memoize(lambda: hook.add_effect(effect))
 
@@ -644,7 +637,19 @@ def strictly_equal(x: Any, y: Any) -> bool:
     return x is y  # nocov
 
 
+async def stop_previous_effect_run(
+    latest_run: Ref[_EffectRun | None], stop: asyncio.Event
+) -> None:
+    """Stop the previous run of an effect and wait until it has been cleaned up"""
+    previous_run = latest_run.current
+    latest_run.current = (stop, cast("asyncio.Task[None]", asyncio.current_task()))
+    if previous_run:
+        previous_stop, previous_task = previous_run
+        previous_stop.set()
+        await asyncio.wait([previous_task])
+
+
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
-    if cleanup_func.current:
-        cleanup_func.current()
-        cleanup_func.current = None
+    cleanup, cleanup_func.current = cleanup_func.current, None
+    if cleanup:
+        cleanup()
-- 
2.43.0


From 4d1afaea9c3fedd777509bae30e2b051f70c75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 08/72] fix: never give two elements the same event handler
 address

---
 src/reactpy/core/layout.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index e06b34d..e006763 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -26,6 +26,7 @@ from typing import (
     TypeVar,
     cast,
 )
+from urllib.parse import quote
 from uuid import uuid4
 from weakref import ref as weakref
 
@@ -688,7 +689,7 @@ def _make_component_model_state(
         children_by_key={},
         targets_by_event={},
         life_cycle_state=_make_life_cycle_state(component, schedule_render),
-        key_path=f"{parent.key_path}/{key}" if parent else "",
+        key_path=_child_key_path(parent, key) if parent else "",
     )
 
 
@@ -732,7 +733,7 @@ def _update_component_model_state(
             if old_model_state.is_component_state
             else _make_life_cycle_state(new_component, schedule_render)
         ),
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_child_key_path(new_parent, old_model_state.key),
     )
 
 
@@ -749,7 +750,7 @@ def _make_element_model_state(
         patch_path=f"{parent.patch_path}/children/{index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{parent.key_path}/{key}",
+        key_path=_child_key_path(parent, key),
     )
 
 
@@ -766,10 +767,16 @@ def _update_element_model_state(
         patch_path=f"{new_parent.patch_path}/children/{new_index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_child_key_path(new_parent, old_model_state.key),
     )
 
 
+def _child_key_path(parent: _ModelState, key: Key) -> str:
+    # Distinct keys must result in distinct paths, for example `1` and `"1"`
+    # or `"a/b"` and `"b"` inside of `"a"`.
+    return f"{parent.key_path}/{quote(repr(key), safe='')}"
+
+
 class _ModelState:
     """State that is bound to a particular element within the layout"""
 
-- 
2.43.0


From 2b6735deaa6037f7175340ee431ffb6571a92c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 09/72] fix: keep an event handler whose explicit target moved
 to another element

---
 src/reactpy/core/layout.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index e006763..d59f2d3 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -67,6 +67,8 @@ class Layout(BaseLayout):
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
         self._event_handlers: EventHandlerDict = {}
+        # The element each event handler belongs to
+        self._event_handler_states: dict[str, _ModelState] = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
@@ -119,6 +121,7 @@ class Layout(BaseLayout):
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
+        del self._event_handler_states
         del self._event_queues
         del self._event_processing_tasks
         del self._rendering_queue
@@ -439,25 +442,10 @@ class Layout(BaseLayout):
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
-        for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            old_target = old_state.targets_by_event[old_event]
-            del self._event_handlers[old_target]
-
-        if not handlers_by_event:
-            self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
-            return None
-
-        model_event_handlers = new_state.model.current["eventHandlers"] = {}
-        for event, handler in handlers_by_event.items():
-            if handler.target is not None:
-                target = handler.target
-            else:
-                target = f"{new_state.key_path}:{event}"
-
-            new_state.targets_by_event[event] = target
-            self._event_handlers[target] = handler
-            model_event_handlers[event] = self._serialize_event_handler(handler, target)
-
+        self._render_model_event_handlers_without_old_state(
+            new_state, handlers_by_event
+        )
+        self._remove_event_handlers(old_state)
         self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
         return None
 
@@ -512,10 +500,18 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_states[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         return None
 
+    def _remove_event_handlers(self, model_state: _ModelState) -> None:
+        for target in model_state.targets_by_event.values():
+            # Another element may have taken over the target
+            if self._event_handler_states.get(target) is model_state:
+                del self._event_handler_states[target]
+                self._event_handlers.pop(target, None)
+
     @staticmethod
     def _serialize_event_handler(handler: Any, target: str) -> dict[str, Any]:
         """Build the on-the-wire event handler entry.
@@ -597,8 +593,7 @@ class Layout(BaseLayout):
         while to_unmount:
             model_state = to_unmount.pop()
 
-            for target in model_state.targets_by_event.values():
-                self._event_handlers.pop(target, None)
+            self._remove_event_handlers(model_state)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From 625716a8f92bff38d2d96ba7367889781cc0efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 10/72] fix: keep events in order, survive any handler and
 retain nothing for idle targets

---
 src/reactpy/core/layout.py | 137 +++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 43 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d59f2d3..869b420 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from asyncio import (
     CancelledError,
+    Lock,
     Queue,
     Task,
     create_task,
@@ -66,10 +67,11 @@ class Layout(BaseLayout):
 
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
+        self._is_closed = False
         self._event_handlers: EventHandlerDict = {}
         # The element each event handler belongs to
         self._event_handler_states: dict[str, _ModelState] = {}
-        self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
+        self._event_queues: dict[str, _EventQueue] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
         self._render_tasks_by_id: dict[
@@ -103,7 +105,10 @@ class Layout(BaseLayout):
         await shield(create_task(self._close()))
 
     async def _close(self) -> None:
+        self._is_closed = True
         await self._cancel_tasks()
+        for event_queue in self._event_queues.values():
+            await event_queue.clear()
 
         root_csid = self._root_life_cycle_state_id
         await self._unmount_model_states(
@@ -143,12 +148,12 @@ class Layout(BaseLayout):
         # associated with a backend model that has been deleted. We only handle
         # events if the element and the handler exist in the backend. Otherwise
         # we just ignore the event.
+        if self._is_closed:
+            logger.info("Ignored event - layout is closed")
+            return
         target = event["target"]
         if target not in self._event_queues:
-            self._event_queues[target] = cast(
-                "Queue[LayoutEventMessage | dict[str, Any]]",
-                Queue(REACTPY_MAX_QUEUE_SIZE.current),
-            )
+            self._event_queues[target] = _EventQueue()
             self._event_processing_tasks[target] = create_task(
                 self._process_event_queue(target, self._event_queues[target])
             )
@@ -159,45 +164,54 @@ class Layout(BaseLayout):
         if REACTPY_DEBUG.current:
             await sleep(0)
 
-    async def _process_event_queue(
-        self, target: str, queue: Queue[LayoutEventMessage | dict[str, Any]]
+    async def _process_event_queue(self, target: str, queue: _EventQueue) -> None:
+        while not queue.is_idle():
+            await self._process_event(target, await queue.get())
+
+        # Targets may never be used again, so do not keep anything for them
+        del self._event_queues[target]
+        del self._event_processing_tasks[target]
+
+    async def _process_event(
+        self, target: str, event: LayoutEventMessage | dict[str, Any]
     ) -> None:
-        while True:
-            event = await queue.get()
-
-            # Record the client-assigned event sequence number (if any)
-            # so we can echo it back as ``ackSeq`` on the originating
-            # element. The client uses this to decide whether the
-            # server has caught up to the latest keystrokes.
-            seq = event.get("seq")
-            if isinstance(seq, int) and seq >= 0:
-                prev = self._last_event_seq_by_target.get(target, -1)
-                if seq > prev:
-                    self._last_event_seq_by_target[target] = seq
-
-            # Retry a few times to handle potential re-render race conditions where
-            # the handler is temporarily removed and then re-added.
-            handler = self._event_handlers.get(target)
-            if handler is None:
-                for _ in range(3):
-                    await sleep(0.01)
-                    handler = self._event_handlers.get(target)
-                    if handler is not None:
-                        break
-
-            if handler is not None:
-                try:
-                    data = [
-                        Event(d) if isinstance(d, dict) else d for d in event["data"]
-                    ]
-                    await handler.function(data)
-                except Exception:
-                    logger.exception(f"Failed to execute event handler {handler}")
-            else:
-                logger.info(
-                    f"Ignored event - handler {event['target']!r} "
-                    "does not exist or its component unmounted"
-                )
+        # Retry a few times to handle potential re-render race conditions where
+        # the handler is temporarily removed and then re-added.
+        handler = self._event_handlers.get(target)
+        if handler is None:
+            for _ in range(3):
+                await sleep(0.01)
+                handler = self._event_handlers.get(target)
+                if handler is not None:
+                    break
+
+        if handler is None:
+            logger.info(
+                f"Ignored event - handler {event['target']!r} "
+                "does not exist or its component unmounted"
+            )
+            return
+
+        # Record the client-assigned event sequence number (if any)
+        # so we can echo it back as ``ackSeq`` on the originating
+        # element. The client uses this to decide whether the
+        # server has caught up to the latest keystrokes.
+        seq = event.get("seq")
+        if isinstance(seq, int) and seq >= 0:
+            prev = self._last_event_seq_by_target.get(target, -1)
+            if seq > prev:
+                self._last_event_seq_by_target[target] = seq
+
+        try:
+            data = [Event(d) if isinstance(d, dict) else d for d in event["data"]]
+            await handler.function(data)
+        except CancelledError:
+            task = current_task()
+            if task is None or task.cancelling():
+                raise
+            logger.exception(f"Failed to execute event handler {handler}")
+        except Exception:
+            logger.exception(f"Failed to execute event handler {handler}")
 
     async def render(self) -> LayoutUpdateMessage:
         if REACTPY_ASYNC_RENDERING.current:
@@ -933,6 +947,43 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._pending.clear()
 
 
+class _EventQueue:
+    """Events for one target in the order they were delivered"""
+
+    def __init__(self) -> None:
+        self._queue: Queue[LayoutEventMessage | dict[str, Any]] = Queue(
+            REACTPY_MAX_QUEUE_SIZE.current
+        )
+        # Keeps the order of the events which wait for space in the queue
+        self._put_lock = Lock()
+        self._num_events = 0
+
+    def is_idle(self) -> bool:
+        """Whether no event is in the queue or is about to be put there"""
+        return self._num_events == 0
+
+    async def put(self, event: LayoutEventMessage | dict[str, Any]) -> None:
+        self._num_events += 1
+        try:
+            async with self._put_lock:
+                await self._queue.put(event)
+        except BaseException:
+            self._num_events -= 1
+            raise
+
+    async def get(self) -> LayoutEventMessage | dict[str, Any]:
+        event = await self._queue.get()
+        self._num_events -= 1
+        return event
+
+    async def clear(self) -> None:
+        while not self.is_idle():
+            if self._queue.empty():
+                await sleep(0)
+            else:
+                await self.get()
+
+
 def _get_children_info(
     children: list[VdomChild],
 ) -> tuple[list[_ChildInfo], set[Key] | None]:
-- 
2.43.0


From 9ce16b1213c17d30ca1ccf8e1f7474f83c1e5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 11/72] fix: forget received sequence numbers of handlers that
 are gone

---
 src/reactpy/core/layout.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 869b420..d1362b9 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -71,6 +71,7 @@ class Layout(BaseLayout):
         self._event_handlers: EventHandlerDict = {}
         # The element each event handler belongs to
         self._event_handler_states: dict[str, _ModelState] = {}
+        self._removed_targets: set[str] = set()
         self._event_queues: dict[str, _EventQueue] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
@@ -127,6 +128,7 @@ class Layout(BaseLayout):
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
         del self._event_handler_states
+        del self._removed_targets
         del self._event_queues
         del self._event_processing_tasks
         del self._rendering_queue
@@ -302,6 +304,13 @@ class Layout(BaseLayout):
                     ],
                 }
 
+            # Forget what was received for handlers that are gone, unless another render
+            # is in progress which may be about to add them again
+            if len(self._active_renders) < 2:
+                for target in self._removed_targets.difference(self._event_handlers):
+                    self._last_event_seq_by_target.pop(target, None)
+                self._removed_targets.clear()
+
             if REACTPY_CHECK_VDOM_SPEC.current:
                 validate_vdom_json(new_state.model.current)
 
@@ -525,6 +534,7 @@ class Layout(BaseLayout):
             if self._event_handler_states.get(target) is model_state:
                 del self._event_handler_states[target]
                 self._event_handlers.pop(target, None)
+                self._removed_targets.add(target)
 
     @staticmethod
     def _serialize_event_handler(handler: Any, target: str) -> dict[str, Any]:
-- 
2.43.0


From f48830232163bf3d015cc86997bee751be1a4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 12/72] fix: ignore a boolean as event sequence number

---
 src/reactpy/core/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d1362b9..c8d61c5 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -199,7 +199,7 @@ class Layout(BaseLayout):
         # element. The client uses this to decide whether the
         # server has caught up to the latest keystrokes.
         seq = event.get("seq")
-        if isinstance(seq, int) and seq >= 0:
+        if isinstance(seq, int) and not isinstance(seq, bool) and seq >= 0:
             prev = self._last_event_seq_by_target.get(target, -1)
             if seq > prev:
                 self._last_event_seq_by_target[target] = seq
-- 
2.43.0


From de5d952f8168d3077384b68b535cfa7eb736505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 13/72] fix: never return a memoized value that was computed
 for other dependencies

---
 src/reactpy/core/hooks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index f489a40..9701262 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -497,23 +497,22 @@ def use_memo(
     dependencies = _try_to_infer_closure_values(function, dependencies)
 
     memo: _Memo[_Type] = _use_const(_Memo)
+    # copy the dependencies since the given sequence could be mutated
+    new_deps = () if dependencies is None else tuple(dependencies)
 
     if memo.empty():
         # we need to initialize on the first run
         changed = True
-        memo.deps = () if dependencies is None else dependencies
     elif dependencies is None:
         changed = True
-        memo.deps = ()
     elif (
-        len(memo.deps) != len(dependencies)
+        len(memo.deps) != len(new_deps)
         # if deps are same length check identity for each item
         or not all(
             strictly_equal(current, new)
-            for current, new in zip(memo.deps, dependencies, strict=False)
+            for current, new in zip(memo.deps, new_deps, strict=False)
         )
     ):
-        memo.deps = dependencies
         changed = True
     else:
         changed = False
@@ -522,6 +521,8 @@ def use_memo(
 
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
+            # only now, since the value does not match if the function has failed
+            memo.deps = new_deps
             return current_value
 
     else:
-- 
2.43.0


From f2abad90865cbeb42075bf3ba7e0b1d14bca16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 14/72] fix: compare values whose equality is not a boolean by
 identity

---
 src/reactpy/core/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 9701262..dc4264d 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -632,7 +632,7 @@ def strictly_equal(x: Any, y: Any) -> bool:
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
         with contextlib.suppress(Exception):
-            return x == y  # type: ignore
+            return bool(x == y)
 
     # Fallback to identity check
     return x is y  # nocov
-- 
2.43.0


From ab092031d4fd030965e77483f729a9c298cb3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 15/72] fix: accept a websocket before anything is rendered for
 it

---
 src/reactpy/executors/asgi/middleware.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index d6e81a3..65d960b 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -201,8 +201,10 @@ class ReactPyWebsocket(ResponseWebSocket):
         self.dispatcher: asyncio.Task[Any] | None = None
 
     async def __aenter__(self) -> ReactPyWebsocket:
+        # Nothing may be rendered, or sent, before the connection has been accepted
+        await super().__aenter__()
         self.dispatcher = asyncio.create_task(self.run_dispatcher())
-        return await super().__aenter__()  # type: ignore
+        return self
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
-- 
2.43.0


From 0a02d88a9a6fe1bf56eede9319b9465341ece17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 16/72] fix: close the websocket of a session that failed

---
 src/reactpy/executors/asgi/middleware.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 65d960b..758864d 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import asyncio
+import contextlib
 import logging
 import re
 import traceback
@@ -250,6 +251,13 @@ class ReactPyWebsocket(ResponseWebSocket):
         except Exception as error:
             await asyncio.to_thread(_logger.error, f"{error}\n{traceback.format_exc()}")
 
+            # Do not leave the client waiting for updates that will never be sent
+            with contextlib.suppress(Exception):
+                await self.close(code=1011)
+            # Nobody handles the events that arrive until the client has disconnected
+            while True:
+                await self.rendering_queue.get()
+
     async def send_json(self, data: Any) -> None:
         return await self._send(
             {"type": "websocket.send", "text": orjson.dumps(data).decode()}
-- 
2.43.0


From 0401a1c418ffcbabfabb2eb33c3bcf69470afb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 17/72] fix: take the path prefix of the dispatcher literally

---
 src/reactpy/executors/asgi/middleware.py | 2 +-
 src/reactpy/executors/asgi/pyscript.py   | 2 +-
 src/reactpy/executors/asgi/standalone.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 758864d..e7d6ade 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -92,7 +92,7 @@ class ReactPyMiddleware:
         self.web_modules_path = f"{self.path_prefix}modules/"
         self.static_path = f"{self.path_prefix}static/"
         self.dispatcher_pattern = re.compile(
-            f"^{self.dispatcher_path}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
+            rf"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[a-zA-Z0-9_.]+)/\Z"
         )
 
         # User defined ASGI apps
diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index 9c7bfcf..de0ceac 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -81,7 +81,7 @@ class ReactPyCsr(ReactPy):
         self.root_name = root_name
         self.initial = initial
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index e962707..ab4451b 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -71,7 +71,7 @@ class ReactPy(ReactPyMiddleware):
         super().__init__(app=ReactPyApp(self), root_components=[], **settings)
         self.root_component = root_component
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
-- 
2.43.0


From 4c00ead562eb9319d038a32eaa1841a7e0da6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 18/72] fix: declare the length of the index page in bytes

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index ab4451b..8a4ef22 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -215,7 +215,7 @@ class ReactPyApp:
             "last-modified": self._last_modified,
             "access-control-allow-origin": "*",
             "cache-control": "max-age=60, public",
-            "content-length": str(len(self._index_html)),
+            "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
             **self.parent.extra_headers,
         }
-- 
2.43.0


From 75fee03ed3595dad650ec8b344606c31be8c612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 19/72] fix: let the entity tag decide whether the index page
 was modified

---
 src/reactpy/executors/asgi/standalone.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 8a4ef22..3e1a0fd 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -226,10 +226,7 @@ class ReactPyApp:
             return await response(scope, receive, send)  # type: ignore
 
         # Browser already has the content cached
-        if (
-            request_headers.get(b"if-none-match") == self._etag.encode()
-            or request_headers.get(b"if-modified-since") == self._last_modified.encode()
-        ):
+        if self._is_not_modified(request_headers):
             response_headers.pop("content-length")
             response = ResponseHTML("", headers=response_headers, status_code=304)
             return await response(scope, receive, send)  # type: ignore
@@ -238,6 +235,16 @@ class ReactPyApp:
         response = ResponseHTML(self._index_html, headers=response_headers)
         await response(scope, receive, send)  # type: ignore
 
+    def _is_not_modified(self, request_headers: dict[bytes, bytes]) -> bool:
+        """Whether the browser already has the current content."""
+        if_none_match = request_headers.get(b"if-none-match")
+        # The date is only meaningful in the absence of an entity tag
+        if if_none_match is None:
+            if_modified_since = request_headers.get(b"if-modified-since")
+            return if_modified_since == self._last_modified.encode()
+        etags = [etag.strip() for etag in if_none_match.split(b",")]
+        return self._etag.encode() in etags
+
     def render_index_html(self) -> None:
         """Process the index.html and store the results in this class."""
         if not self.parent.prepend_body or self.parent.prepend_body == ...:
-- 
2.43.0


From 9bf701572da29b6b2dcba9aa0107ea8ad8bbac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 20/72] fix: keep strings, urls and custom properties of parsed
 styles intact

---
 src/reactpy/transforms.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index f1896c8..5244934 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from typing import Any, cast
 
 from reactpy.core.events import EventHandler, to_event_handler_function
@@ -41,7 +42,9 @@ class RequiredTransforms:
                 self._kebab_to_camel_case(key.strip()): value.strip()
                 for key, value in (
                     part.split(":", 1)
-                    for part in vdom["attributes"]["style"].split(";")
+                    for part in STYLE_DECLARATION_PATTERN.findall(
+                        vdom["attributes"]["style"]
+                    )
                     if ":" in part
                 )
             }
@@ -155,12 +158,28 @@ class RequiredTransforms:
     @staticmethod
     def _kebab_to_camel_case(kebab_case: str) -> str:
         """Convert kebab-case to camelCase."""
+        # Custom properties (e.g. --my-color) are case sensitive names
+        if kebab_case.startswith("--"):
+            return kebab_case
         return "".join(
             part.capitalize() if i else part
             for i, part in enumerate(kebab_case.split("-"))
         )
 
 
+# Matches one declaration of an HTML style attribute. Semicolons within strings or
+# parentheses, e.g. url(data:image/png;base64,...), do not end a declaration.
+STYLE_DECLARATION_PATTERN = re.compile(
+    r"""(
+        (?: "(?:\\.|[^"\\])*"
+        | '(?:\\.|[^'\\])*'
+        | \( (?: "(?:\\.|[^"\\])*" | '(?:\\.|[^'\\])*' | [^)"'] )* \)
+        | [^;]
+        )+
+    )""",
+    re.DOTALL | re.VERBOSE,
+)
+
 KNOWN_REACT_PROPS = {
     "onLoadStart",
     "onTouchStart",
-- 
2.43.0


From a3cfc8fa00da03735383d66ac28c0c98340742a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 21/72] fix: parse options without text or with elements inside

---
 src/reactpy/transforms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 5244934..dc26cf8 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -144,7 +144,7 @@ class RequiredTransforms:
 
         vdom = vdom_or_any
         if vdom["tagName"] == "option" and "attributes" in vdom:
-            value = vdom["attributes"].setdefault("value", vdom["children"][0])
+            value = vdom["attributes"].setdefault("value", self._text_content(vdom))
 
             if "selected" in vdom["attributes"]:
                 vdom["attributes"].pop("selected")
@@ -155,6 +155,12 @@ class RequiredTransforms:
 
         return selected_options
 
+    def _text_content(self, vdom_or_text: Any) -> str:
+        """Returns the text within a tree of elements, without their tags."""
+        if not isinstance(vdom_or_text, dict):
+            return str(vdom_or_text)
+        return "".join(map(self._text_content, vdom_or_text.get("children", [])))
+
     @staticmethod
     def _kebab_to_camel_case(kebab_case: str) -> str:
         """Convert kebab-case to camelCase."""
-- 
2.43.0


From 32dc59131b03655eb48b1b9694562b464e0e48d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 22/72] fix: print characters beyond ASCII as they are in
 static HTML

---
 src/reactpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index bb0bc5b..87f7b7e 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -75,7 +75,7 @@ def reactpy_to_string(root: VdomDict | Component) -> str:
         root = component_to_vdom(root)
 
     _add_vdom_to_etree(temp_container, root)
-    html = etree.tostring(temp_container, method="html").decode()
+    html = etree.tostring(temp_container, method="html", encoding="unicode")
 
     # Strip out temp root <__temp__> element
     return html[10:-11]
-- 
2.43.0


From 5ded3600a6977b9103287b47c5db71cece65536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 23/72] fix: print the same children to static HTML as the
 layout displays

---
 src/reactpy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 87f7b7e..b250502 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -190,6 +190,8 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element = parent
 
     for c in vdom.get("children", []):
+        if c is None:
+            continue
         if hasattr(c, "render"):
             c = component_to_vdom(cast(Component, c))
         if isinstance(c, dict):
@@ -247,7 +249,7 @@ def component_to_vdom(component: Component) -> VdomDict:
         return result
     if hasattr(result, "render"):
         return component_to_vdom(cast(Component, result))
-    return h.div(result) if isinstance(result, str) else h.div()
+    return h.div(result)
 
 
 def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
-- 
2.43.0


From 99fd5da3a302dd9a2a2ad4d44cca108137585f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 24/72] fix: print the HTML names of classes, labels and vendor
 styles

---
 src/reactpy/utils.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index b250502..04ff816 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -260,13 +260,14 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
-                f"{CAMEL_CASE_PATTERN.sub('-', k).lower()}:{v}"
+                f"{_react_style_to_css(k)}:{v}"
                 for k, v in value.items()
+                if v is not None
             )
 
-    # Convert special attributes to kebab-case
-    elif key in DASHED_HTML_ATTRS:
-        key = CAMEL_CASE_PATTERN.sub("-", key)
+    # Convert special attributes to their HTML name
+    elif key in HTML_ATTR_SUBSTITUTIONS:
+        key = HTML_ATTR_SUBSTITUTIONS[key]
 
     # Retain data-* and aria-* attributes as provided
     elif key.startswith("data-") or key.startswith("aria-"):
@@ -275,12 +276,26 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     return key.lower(), str(value)
 
 
-# see list of HTML attributes with dashes in them:
+def _react_style_to_css(key: str) -> str:
+    """Convert the name of a React style to the name of a CSS property."""
+    # Custom properties (e.g. --my-color) are case sensitive names
+    if key.startswith("--"):
+        return key
+    return CAMEL_CASE_PATTERN.sub("-", key).lower()
+
+
+# React attributes whose HTML name is not just the lower case name. See list here:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
-DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
+HTML_ATTR_SUBSTITUTIONS = {
+    "acceptCharset": "accept-charset",
+    "className": "class",
+    "defaultChecked": "checked",
+    "htmlFor": "for",
+    "httpEquiv": "http-equiv",
+}
 
 # Pattern for delimitting camelCase names (e.g. camelCase to camel-case)
-CAMEL_CASE_PATTERN = re.compile(r"(?<!^)(?=[A-Z])")
+CAMEL_CASE_PATTERN = re.compile(r"(?=[A-Z])")
 
 
 def import_dotted_path(dotted_path: str) -> Any:
-- 
2.43.0


From 9dd9f13c1a27efe1a848b5ca017d863959e25192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 25/72] fix: print boolean attributes and inline scripts as the
 client sets them

---
 src/reactpy/utils.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 04ff816..a963a78 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -184,7 +184,11 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element = etree.SubElement(parent, tag)
         element.attrib.update(
             _react_attribute_to_html(k, v)
-            for k, v in vdom.get("attributes", {}).items()
+            for k, v in chain(
+                vdom.get("attributes", {}).items(),
+                vdom.get("inlineJavaScript", {}).items(),
+            )
+            if _is_displayed_attribute(k, v)
         )
     else:
         element = parent
@@ -252,11 +256,23 @@ def component_to_vdom(component: Component) -> VdomDict:
     return h.div(result)
 
 
+def _is_displayed_attribute(key: str, value: Any) -> bool:
+    """Attributes that are None or False are absent, unless false has a meaning."""
+    return value is not None and (
+        value is not False
+        or key.startswith(("data-", "aria-"))
+        or key in ENUMERATED_HTML_ATTRS
+    )
+
+
 def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     """Convert a React attribute to an HTML attribute string."""
     if callable(value):  # nocov
         raise TypeError(f"Cannot convert callable attribute {key}={value} to HTML")
 
+    if isinstance(value, bool):
+        value = str(value).lower()
+
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
@@ -294,6 +310,9 @@ HTML_ATTR_SUBSTITUTIONS = {
     "httpEquiv": "http-equiv",
 }
 
+# Attributes whose value may be "true" or "false"
+ENUMERATED_HTML_ATTRS = {"contentEditable", "draggable", "spellCheck"}
+
 # Pattern for delimitting camelCase names (e.g. camelCase to camel-case)
 CAMEL_CASE_PATTERN = re.compile(r"(?=[A-Z])")
 
-- 
2.43.0


From 5792a8a9055c0572027cf58c9706e88c718d7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 26/72] fix: print the initial value of form controls to static
 HTML

---
 src/reactpy/utils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index a963a78..8217ca1 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -180,12 +180,25 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
     else:
         vdom = cast(VdomDict, vdom)
 
+    attributes = dict(vdom.get("attributes", {}))
+    children = list(vdom.get("children", []))
+    form_value = None
+    if tag in {"input", "select", "textarea"}:
+        # The initial value of form controls is a property, see `RequiredTransforms`
+        default_value = attributes.pop("defaultValue", None)
+        form_value = attributes.pop("value", None)
+        form_value = default_value if form_value is None else form_value
+        if tag == "input" and form_value is not None:
+            attributes["value"] = form_value
+        elif tag == "textarea" and form_value is not None:
+            children = [form_value]
+
     if tag:
         element = etree.SubElement(parent, tag)
         element.attrib.update(
             _react_attribute_to_html(k, v)
             for k, v in chain(
-                vdom.get("attributes", {}).items(),
+                attributes.items(),
                 vdom.get("inlineJavaScript", {}).items(),
             )
             if _is_displayed_attribute(k, v)
@@ -193,7 +206,7 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
     else:
         element = parent
 
-    for c in vdom.get("children", []):
+    for c in children:
         if c is None:
             continue
         if hasattr(c, "render"):
@@ -220,6 +233,13 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         else:
             element.text = f"{element.text or ''}{c}"
 
+    if tag == "select" and form_value is not None:
+        selected = form_value if isinstance(form_value, (list, tuple)) else [form_value]
+        selected = [str(value) for value in selected]
+        for option in element.iter("option"):
+            if option.get("value", "".join(option.itertext())) in selected:
+                option.set("selected", "")
+
 
 def _generate_vdom_children(
     node: etree._Element, transforms: Iterable[_ModelTransform], intercept_links: bool
-- 
2.43.0


From b6d2a6fa5360f5497f4542e95aae191ccd179793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 27/72] fix: parse the option which browsers select

---
 src/reactpy/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index dc26cf8..b522a38 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -79,7 +79,8 @@ class RequiredTransforms:
             if multiple_choice:
                 vdom["attributes"]["multiple"] = True
             if selected_options and not multiple_choice:
-                vdom["attributes"]["defaultValue"] = selected_options[0]
+                # Browsers select the last one if there are several
+                vdom["attributes"]["defaultValue"] = selected_options[-1]
             if selected_options and multiple_choice:
                 vdom["attributes"]["defaultValue"] = selected_options
 
-- 
2.43.0


From 4c9a3c93bf69723b556d15792a12de3be363b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 28/72] fix: keep empty boolean attributes of parsed HTML
 switched on

---
 src/reactpy/transforms.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index b522a38..9d221d8 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -49,6 +49,15 @@ class RequiredTransforms:
                 )
             }
 
+    @staticmethod
+    def boolean_attributes_to_prop(vdom: VdomDict) -> None:
+        """The presence of a boolean attribute means true in HTML, even if it is empty,
+        but an empty string means false to ReactJS."""
+        attributes = vdom.get("attributes", {})
+        for name in BOOLEAN_REACT_PROPS.intersection(attributes):
+            if attributes[name] == "":
+                attributes[name] = True
+
     @staticmethod
     def textarea_children_to_prop(vdom: VdomDict) -> None:
         """Transformation that converts the text content of a <textarea> to a ReactJS prop."""
@@ -187,6 +196,32 @@ STYLE_DECLARATION_PATTERN = re.compile(
     re.DOTALL | re.VERBOSE,
 )
 
+BOOLEAN_REACT_PROPS = {
+    "allowfullscreen",
+    "async",
+    "autoFocus",
+    "autoplay",
+    "controls",
+    "default",
+    "defaultChecked",
+    "defer",
+    "disabled",
+    "formNoValidate",
+    "hidden",
+    "inert",
+    "loop",
+    "multiple",
+    "muted",
+    "noModule",
+    "novalidate",
+    "open",
+    "playsinline",
+    "readOnly",
+    "required",
+    "reversed",
+    "selected",
+}
+
 KNOWN_REACT_PROPS = {
     "onLoadStart",
     "onTouchStart",
-- 
2.43.0


From e9b527492db9e6bafd9ace12972689c3202144db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 29/72] fix: return the value of an option whose new default
 equals its value

---
 src/reactpy/_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 9e57c22..49fc11a 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -116,7 +116,7 @@ class Option(Generic[_O]):
         """
         if not self.is_set():
             self.set_current(new)
-        return self._current
+        return self.current
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-- 
2.43.0


From 0c1d3f862e117b80fb0b2fbb89ea385fdaeed228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 30/72] fix: let the own value of an option take precedence
 over its parent

---
 src/reactpy/_option.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 49fc11a..f0ec9ee 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -34,8 +34,8 @@ class Option(Generic[_O]):
         if parent is not None:
             if not (parent.mutable and self.mutable):
                 raise TypeError("Parent and child options must be mutable")
-            self._default = parent.default
-            parent.subscribe(self.set_current)
+            self._default = validator(parent.current)
+            parent.subscribe(self._inherit)
         elif default is not UNDEFINED:
             self._default = default
         else:
@@ -82,6 +82,19 @@ class Option(Generic[_O]):
         handler(self.current)
         return handler
 
+    def _inherit(self, new: Any) -> None:
+        """Use the current value of the parent as long as this option is not set"""
+        old = self.current
+        self._default = self._validator(new)
+        self._notify(old)
+
+    def _notify(self, old: _O) -> None:
+        """Tell the subscribers about the current value if it differs from the old"""
+        new = self.current
+        if new != old:
+            for sub_func in self._subscribers:
+                sub_func(new)
+
     def is_set(self) -> bool:
         """Whether this option has a value other than its default."""
         return hasattr(self, "_current")
@@ -92,7 +105,7 @@ class Option(Generic[_O]):
         Raises a ``TypeError`` if this option is not :attr:`Option.mutable`.
         """
         old = self.current
-        if new is old:
+        if new is old and (self.is_set() or not self._mutable):
             return None
 
         if not self._mutable:
@@ -100,14 +113,12 @@ class Option(Generic[_O]):
             raise TypeError(msg)
 
         try:
-            new = self._current = self._validator(new)
+            self._current = self._validator(new)
         except ValueError as error:
             raise ValueError(f"Invalid value for {self._name}: {new!r}") from error
 
         logger.debug(f"{self._name}={self._current}")
-        if new != old:
-            for sub_func in self._subscribers:
-                sub_func(new)
+        self._notify(old)
 
     def set_default(self, new: _O) -> _O:
         """Set the value of this option if not :meth:`Option.is_set`
@@ -120,7 +131,10 @@ class Option(Generic[_O]):
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-        self.set_current(os.environ.get(self._name, self._default))
+        if self._name in os.environ:
+            self.set_current(os.environ[self._name])
+        elif self.is_set():
+            self.unset()
 
     def unset(self) -> None:
         """Remove the current value, the default will be used until it is set again."""
@@ -130,9 +144,7 @@ class Option(Generic[_O]):
         old = self.current
         if hasattr(self, "_current"):
             delattr(self, "_current")
-        if self.current != old:
-            for sub_func in self._subscribers:
-                sub_func(self.current)
+        self._notify(old)
 
     def __repr__(self) -> str:
         return f"Option({self._name}={self.current!r})"
-- 
2.43.0


From 2c36a06aaeb3168a53e97315923f59a434b56acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 31/72] fix: await coroutines returned by event handlers that
 are not coroutine functions

---
 src/reactpy/core/events.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 3828e2a..5c6161b 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -197,14 +197,19 @@ def to_event_handler_function(
         else:
 
             async def wrapper(data: Sequence[Any]) -> None:
-                function(*data)
+                result = function(*data)
+                # e.g. a lambda or an object whose __call__ method is async
+                if inspect.iscoroutine(result):
+                    await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
     elif not inspect.iscoroutinefunction(function):
 
         async def wrapper(data: Sequence[Any]) -> None:
-            function(data)
+            result = function(data)
+            if inspect.iscoroutine(result):
+                await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
-- 
2.43.0


From 4ead8d24979f7c0425cbd1699571f29cc44db07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 32/72] fix: find the event argument of methods, partials and
 callable objects

---
 src/reactpy/core/_event_inspect.py | 11 +++++++----
 src/reactpy/core/events.py         | 30 ++++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index e9adc8c..1ef8faa 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -19,7 +19,9 @@ _LOAD_FAST_BORROW_PAIR_SIZE = 2
 _STORE_ATTR_VALUE_OFFSET = 2
 
 
-def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
+def inspect_event_handler(
+    func: Callable, event_arg_index: int = 0
+) -> tuple[bool, bool, int | None]:
     """Detect ``preventDefault``/``stopPropagation``/``debounce`` usage.
 
     Walks the bytecode of ``func`` looking for the patterns:
@@ -42,13 +44,14 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
 
     Returns ``(prevent_default, stop_propagation, debounce)``.
     """
-    code = func.__code__
+    code = getattr(func, "__code__", None)
 
     prevent_default = False
     stop_propagation = False
     debounce: int | None = None
 
-    if code.co_argcount <= 0:
+    # Builtin functions have no bytecode
+    if code is None or code.co_argcount <= event_arg_index:
         return prevent_default, stop_propagation, debounce
 
     names = code.co_names
@@ -59,7 +62,7 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     if not (check_prevent_default or check_stop_propagation or check_debounce):
         return prevent_default, stop_propagation, debounce
 
-    event_arg_name = code.co_varnames[0]
+    event_arg_name = code.co_varnames[event_arg_index]
     instructions = list(dis.get_instructions(code))
     arg_defaults = _function_arg_defaults(func)
     closure_by_name = _closure_lookup(func)
diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 5c6161b..4d73f70 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -126,15 +126,8 @@ class EventHandler(BaseEventHandler):
 
         # Check if our `preventDefault` or `stopPropagation` methods were called
         # by inspecting the function's bytecode
-        func_to_inspect = cast(Any, function)
-        while hasattr(func_to_inspect, "__wrapped__"):
-            func_to_inspect = func_to_inspect.__wrapped__
-
-        if isinstance(func_to_inspect, partial):
-            func_to_inspect = func_to_inspect.func
-
         found_prevent_default, found_stop_propagation, found_debounce = (
-            inspect_event_handler(func_to_inspect)
+            inspect_event_handler(*_find_event_argument(function))
         )
 
         if found_prevent_default:
@@ -174,6 +167,27 @@ class EventHandler(BaseEventHandler):
         return f"{type(self).__name__}({items})"
 
 
+def _find_event_argument(function: Callable[..., Any]) -> tuple[Any, int]:
+    """Find the function behind a callable, and which of its arguments is the event"""
+    func = cast(Any, function)
+    event_arg_index = 0
+    while True:
+        if inspect.ismethod(func):
+            event_arg_index += 1
+            func = func.__func__
+        elif hasattr(func, "__wrapped__"):
+            func = func.__wrapped__
+        elif isinstance(func, partial):
+            event_arg_index += len(func.args)
+            func = func.func
+        elif not hasattr(func, "__code__") and inspect.ismethod(
+            getattr(func, "__call__", None)  # noqa: B004
+        ):
+            func = func.__call__
+        else:
+            return func, event_arg_index
+
+
 def to_event_handler_function(
     function: Callable[..., Any],
     positional_args: bool = True,
-- 
2.43.0


From cdabae5a5c6c07144ceb71a73c6b31add9a51ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 33/72] fix: detect calls on an event that a nested function
 uses, and in large handlers

---
 src/reactpy/core/_event_inspect.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 1ef8faa..9f8c346 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -63,7 +63,10 @@ def inspect_event_handler(
         return prevent_default, stop_propagation, debounce
 
     event_arg_name = code.co_varnames[event_arg_index]
-    instructions = list(dis.get_instructions(code))
+    # Prefixes of instructions with large arguments have no meaning of their own
+    instructions = [
+        instr for instr in dis.get_instructions(code) if instr.opname != "EXTENDED_ARG"
+    ]
     arg_defaults = _function_arg_defaults(func)
     closure_by_name = _closure_lookup(func)
     constant_ints_by_name = _constant_ints_by_name(code)
@@ -77,7 +80,8 @@ def inspect_event_handler(
 
     for index, instr in enumerate(instructions):
         if (
-            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW")
+            # ``LOAD_DEREF`` is used if a nested function refers to the event
+            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW", "LOAD_DEREF")
             and instr.argval == event_arg_name
         ):
             last_was_event = True
@@ -242,6 +246,7 @@ def _resolve_debounce_value(
     if target_instr.opname not in (
         "LOAD_FAST",
         "LOAD_FAST_BORROW",
+        "LOAD_DEREF",
         # CPython 3.13+ may fuse two ``LOAD_FAST`` instructions into
         # ``LOAD_FAST_LOAD_FAST`` whose argval is ``(value_name, target_name)``.
         # The detector above already covers this case for debounce values,
-- 
2.43.0


From a73546b6896a895ba8d39791571d2a87e1c715e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 34/72] fix: keep inline scripts of elements with a custom
 constructor

---
 src/reactpy/core/vdom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/vdom.py b/src/reactpy/core/vdom.py
index 9d8ba41..b647fd2 100644
--- a/src/reactpy/core/vdom.py
+++ b/src/reactpy/core/vdom.py
@@ -184,6 +184,11 @@ class Vdom:
                 attributes=attributes,
                 event_handlers=event_handlers,
             )
+            if inline_javascript and not self.__name__:
+                msg = "Fragments cannot have attributes besides 'key'"
+                raise TypeError(msg)
+            if inline_javascript:
+                result = result | {"inlineJavaScript": inline_javascript}
 
         # Otherwise, use the default constructor
         else:
-- 
2.43.0


From 9315390a1ea77b8d64347ac023896ee16f18b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 35/72] fix: publish JavaScript modules atomically and survive
 crashed workers

The lock is now released by the operating system when its holder dies, the
directory of nested module names exists before the lock is taken, and strings
and symbolic links are moved into place like copied files.
---
 src/reactpy/reactjs/module.py | 19 +++++----
 src/reactpy/reactjs/utils.py  | 77 +++++++++++++++++++++++++++--------
 2 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 337b1ec..c891d4c 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -13,6 +13,7 @@ from reactpy.reactjs.utils import (
     file_lock,
     resolve_names_from_file,
     resolve_names_from_url,
+    write_file,
 )
 from reactpy.types import ImportSourceDict, JavaScriptModule, VdomConstructor, VdomDict
 
@@ -53,6 +54,7 @@ def file_to_module(
 
     source_file = Path(file).resolve()
     target_file = get_module_path(name)
+    target_file.parent.mkdir(parents=True, exist_ok=True)
 
     with file_lock(target_file.with_name(f"{target_file.name}.lock")):
         if not source_file.exists():
@@ -94,15 +96,16 @@ def string_to_module(
 
     target_file = get_module_path(name)
 
-    if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
-        logger.info(
-            f"Existing web module {name!r} will "
-            f"be replaced with {target_file.resolve()}"
-        )
-        target_file.unlink()
-
     target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content)
+
+    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
+        if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
+            logger.info(
+                f"Existing web module {name!r} will "
+                f"be replaced with {target_file.resolve()}"
+            )
+
+        write_file(target_file, content)
 
     return JavaScriptModule(
         source=name,
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index aee317b..e94d66f 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -160,32 +160,47 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
     target.parent.mkdir(parents=True, exist_ok=True)
     if symlink:
-        if target.exists():
-            target.unlink()
+        temp_target = target.with_suffix(f"{target.suffix}.link")
+        temp_target.unlink(missing_ok=True)
         try:
-            target.symlink_to(source)
+            temp_target.symlink_to(source)
         except OSError as error:
+            target.unlink(missing_ok=True)
             try:
                 os.link(source, target)
             except OSError as e:
                 raise error from e
+        else:
+            _replace_file(temp_target, target)
     else:
         temp_target = target.with_suffix(f"{target.suffix}.tmp")
         shutil.copy(source, temp_target)
+        _replace_file(temp_target, target)
+
+
+def write_file(target: Path, content: str) -> None:
+    """Write the content such that the target never holds only a part of it"""
+    target.parent.mkdir(parents=True, exist_ok=True)
+    temp_target = target.with_suffix(f"{target.suffix}.tmp")
+    temp_target.write_text(content, encoding="utf-8")
+    _replace_file(temp_target, target)
+
+
+def _replace_file(temp_target: Path, target: Path) -> None:
+    try:
+        temp_target.replace(target)
+    except OSError:
+        # On Windows, replace might fail if the file is open
+        # Retry once after a short delay
+        time.sleep(0.1)
         try:
             temp_target.replace(target)
         except OSError:
-            # On Windows, replace might fail if the file is open
-            # Retry once after a short delay
-            time.sleep(0.1)
-            try:
-                temp_target.replace(target)
-            except OSError:
-                # If it still fails, try to unlink and rename
-                # This is not atomic, but it's a fallback
-                if target.exists():
-                    target.unlink()
-                temp_target.rename(target)
+            # If it still fails, try to unlink and rename
+            # This is not atomic, but it's a fallback
+            if target.exists():
+                target.unlink()
+            temp_target.rename(target)
 
 
 _JS_DEFAULT_EXPORT_PATTERN = re.compile(
@@ -199,13 +214,32 @@ _JS_GENERAL_EXPORT_PATTERN = re.compile(
 )
 
 
+def _open_locked(lock_file: Path) -> int:
+    """Open and lock a file, such that the lock ends with the process at the latest"""
+    fd = os.open(lock_file, os.O_CREAT | os.O_RDWR)
+    try:
+        if os.name == "nt":  # nocov
+            import msvcrt
+
+            msvcrt.locking(fd, msvcrt.LK_NBLCK, 1)  # type: ignore[attr-defined]
+        else:
+            import fcntl
+
+            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
+            if not os.path.samestat(os.fstat(fd), os.stat(lock_file)):
+                raise FileNotFoundError(f"{lock_file} was removed by its last holder")
+    except OSError:
+        os.close(fd)
+        raise
+    return fd
+
+
 @contextmanager
 def file_lock(lock_file: Path, timeout: float = 10.0):
     start_time = time.time()
     while True:
         try:
-            fd = os.open(lock_file, os.O_CREAT | os.O_EXCL | os.O_RDWR)
-            os.close(fd)
+            fd = _open_locked(lock_file)
             break
         except OSError as e:
             if time.time() - start_time > timeout:
@@ -214,5 +248,12 @@ def file_lock(lock_file: Path, timeout: float = 10.0):
     try:
         yield
     finally:
-        with suppress(OSError):
-            os.unlink(lock_file)
+        if os.name == "nt":  # nocov
+            # Open files can't be removed on Windows
+            os.close(fd)
+            with suppress(OSError):
+                os.unlink(lock_file)
+        else:
+            with suppress(OSError):
+                os.unlink(lock_file)
+            os.close(fd)
-- 
2.43.0


From 350bd4695cbb0d660caf679fd801c7a0d7e81fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 36/72] fix: register a JavaScript module again when its
 content, file or fallback differs

---
 src/reactpy/reactjs/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index d394757..f40c097 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -32,6 +32,13 @@ _FILE_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
 _STRING_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
 
 
+def _forget_replaced_modules(module: JavaScriptModule) -> None:
+    """Forget cached modules whose published file was replaced by the given one."""
+    for cache in (_FILE_JS_MODULE_CACHE, _STRING_JS_MODULE_CACHE):
+        for key in [k for k, m in cache.items() if m.file == module.file]:
+            del cache[key]
+
+
 @overload
 def component_from_url(
     url: str,
@@ -94,7 +101,6 @@ def component_from_url(
     else:
         module = url_to_module(
             url,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -269,19 +275,19 @@ def component_from_file(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}{symlink}{file}"
     if key in _FILE_JS_MODULE_CACHE:
         module = _FILE_JS_MODULE_CACHE[key]
     else:
         module = file_to_module(
             name,
             file,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
             symlink=symlink,
         )
+        _forget_replaced_modules(module)
         _FILE_JS_MODULE_CACHE[key] = module
     return module_to_vdom(module, import_names, fallback, allow_children)
 
@@ -348,17 +354,17 @@ def component_from_string(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}{content}"
     if key in _STRING_JS_MODULE_CACHE:
         module = _STRING_JS_MODULE_CACHE[key]
     else:
         module = string_to_module(
             name,
             content,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
         )
+        _forget_replaced_modules(module)
         _STRING_JS_MODULE_CACHE[key] = module
     return module_to_vdom(module, import_names, fallback, allow_children)
-- 
2.43.0


From 1b356fc34919f764bfca5bb71575ed93a5d94fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 37/72] fix: resolve the exports of minified, multi-line and
 multi-name export statements

---
 src/reactpy/reactjs/utils.py | 82 +++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index e94d66f..6d6c2cf 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -62,8 +62,10 @@ def resolve_names_from_url(
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
 
     for ref in references:
-        url = normalize_url_path(url, ref)
-        names.update(resolve_names_from_url(url, max_depth - 1, is_regex_import=True))
+        ref_url = normalize_url_path(url, ref)
+        names.update(
+            resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)
+        )
 
     return names
 
@@ -90,37 +92,27 @@ def resolve_names_from_source(
 
     for name in _JS_GENERAL_EXPORT_PATTERN.findall(content):
         name = name.rstrip(";").strip()
-        # Exporting individual features
-        if name.startswith("let "):
-            all_names.update(let.split("=", 1)[0] for let in name[4:].split(","))
-        # Renaming exports and export list
-        elif name.startswith("{") and name.endswith("}"):
+        # Exporting individual features, possibly as destructured assignments
+        if declaration := re.match(r"(?:let|const|var)\b", name):
+            all_names.update(_declared_names(name[declaration.end() :]))
+        # Export lists with renaming, possibly aggregating modules
+        elif name.startswith("{"):
             all_names.update(
-                item.split(" as ", 1)[-1] for item in name.strip("{}").split(",")
-            )
-        # Exporting destructured assignments with renaming
-        elif name.startswith("const "):
-            all_names.update(
-                item.split(":", 1)[0]
-                for item in name[6:].split("=", 1)[0].strip("{}").split(",")
+                re.split(r"\sas\s", item.strip())[-1]
+                for item in name[1:].split("}", 1)[0].split(",")
             )
         # Default exports
-        elif name.startswith("default "):
+        elif re.match(r"default\b", name):
             all_names.add("default")
         # Aggregating modules
-        elif name.startswith("* as "):
-            all_names.add(name[5:].split(" from ", 1)[0])
-        elif name.startswith("* "):
-            references.add(name[2:].split("from ", 1)[-1].strip("'\""))
-        elif name.startswith("{") and " from " in name:
-            all_names.update(
-                item.split(" as ", 1)[-1]
-                for item in name.split(" from ")[0].strip("{}").split(",")
-            )
-        elif not (name.startswith("function ") or name.startswith("class ")):
+        elif namespace := re.match(r"\*\s*as\s+(.*?)\s*from\b", name):
+            all_names.add(namespace[1])
+        elif source := re.match(r"\*\s*from\s*([\"'])(.*?)\1", name):
+            references.add(source[2])
+        elif not re.match(r"(?:async\s+)?(?:function|class)\b", name):
             logger.warning(f"Found unknown export type {name!r}")
 
-    all_names = {n.strip() for n in all_names}
+    all_names = {n.strip() for n in all_names} - {""}
     references = {r.strip() for r in references}
 
     if exclude_default and "default" in all_names:
@@ -129,6 +121,36 @@ def resolve_names_from_source(
     return all_names, references
 
 
+def _declared_names(declarators: str) -> set[str]:
+    """Find the names which are bound by the declarators of a let, const or var"""
+    names: set[str] = set()
+    for declarator in _split_list(declarators):
+        target = declarator.strip()
+        if target.startswith(("{", "[")):
+            end = len(_split_list(target, "}" if target[0] == "{" else "]")[0])
+            for item in _split_list(target[1:end]):
+                names.add(re.split("[:=]", item.strip().removeprefix("..."))[0])
+        else:
+            names.add(target.split("=", 1)[0])
+    return names
+
+
+def _split_list(text: str, separator: str = ",") -> list[str]:
+    """Split at separators which are not nested in brackets or strings"""
+    parts = [""]
+    depth = 0
+    for token in re.findall(_JS_STRING_PATTERN + "|.", text, re.DOTALL):
+        if token in ")]}":
+            depth -= 1
+        if token == separator and depth == 0:
+            parts.append("")
+        else:
+            parts[-1] += token
+        if token in "([{":
+            depth += 1
+    return parts
+
+
 def normalize_url_path(base_url: str, rel_url: str) -> str:
     if not rel_url.startswith("."):
         if rel_url.startswith("/"):
@@ -203,14 +225,16 @@ def _replace_file(temp_target: Path, target: Path) -> None:
             temp_target.rename(target)
 
 
+_JS_STRING_PATTERN = r"""\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|`(?:\\.|[^`\\])*`"""
 _JS_DEFAULT_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+default\s",
+    r";?\s*export\s+default\b",
 )
 _JS_FUNC_OR_CLS_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+(?:function|class)\s+([a-zA-Z_$][0-9a-zA-Z_$]*)"
+    r";?\s*export\s+(?:(?:async\s+)?function(?:\s*\*\s*|\s+)|class\s+)([a-zA-Z_$][0-9a-zA-Z_$]*)"
 )
 _JS_GENERAL_EXPORT_PATTERN = re.compile(
-    r"(?:^|;|})\s*export(?=\s+|{)(.*?)(?=;|$)", re.MULTILINE
+    r"(?:^|;|})\s*export(?=\s|{|\*)((?:\s*(?:let|const|var))?\s*{[^}]*}[^;\n]*|.*?)(?=;|$)",
+    re.MULTILINE,
 )
 
 
-- 
2.43.0


From bdeb27fe4c9f7381325d29b8e958ec634ae4a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 38/72] fix: resolve re-exports relative to the module they
 appear in

---
 src/reactpy/reactjs/utils.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 6d6c2cf..fbba955 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -6,7 +6,7 @@ import shutil
 import time
 from contextlib import contextmanager, suppress
 from pathlib import Path
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse
 
 import requests
 
@@ -152,23 +152,8 @@ def _split_list(text: str, separator: str = ",") -> list[str]:
 
 
 def normalize_url_path(base_url: str, rel_url: str) -> str:
-    if not rel_url.startswith("."):
-        if rel_url.startswith("/"):
-            # copy scheme and hostname from base_url
-            return urlunparse(urlparse(base_url)[:2] + urlparse(rel_url)[2:])
-        else:
-            return rel_url
-
-    base_url = base_url.rsplit("/", 1)[0]
-
-    if rel_url.startswith("./"):
-        return base_url + rel_url[1:]
-
-    while rel_url.startswith("../"):
-        base_url = base_url.rsplit("/", 1)[0]
-        rel_url = rel_url[3:]
-
-    return f"{base_url}/{rel_url}"
+    # Bare module names are left as they are
+    return urljoin(base_url, rel_url) if rel_url.startswith((".", "/")) else rel_url
 
 
 def are_files_identical(f1: Path, f2: Path) -> bool:
-- 
2.43.0


From 6d9609da447079900ce972a65a1d8617b38159bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 39/72] fix: embed Python code for PyScript without altering
 its strings

Comments were searched for with regular expressions, docstrings removed and
multi-line strings indented, so that programs changed their meaning.
---
 src/reactpy/executors/pyscript/utils.py | 78 ++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 2b72262..4161ee7 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -12,7 +12,7 @@ import re
 import shutil
 import subprocess
 import sys
-import textwrap
+import tokenize
 from collections.abc import Callable
 from importlib import metadata
 from io import StringIO
@@ -37,17 +37,61 @@ _WHEEL_FILENAME_PART_COUNT = 5
 
 
 def minify_python(source: str) -> str:
-    """Minify Python source code."""
-    # Remove comments
-    source = re.sub(r"#.*\n", "\n", source)
-    # Remove docstrings
-    source = re.sub(r'\n\s*""".*?"""', "", source, flags=re.DOTALL)
-    # Remove excess newlines
-    source = re.sub(r"\n+", "\n", source)
-    # Remove empty lines
-    source = re.sub(r"\s+\n", "\n", source)
-    # Remove leading and trailing whitespace
-    return source.strip()
+    """Remove comments, empty lines and trailing whitespace from Python source code."""
+    parts: list[tuple[str, str]] = []
+    for kind, text in _split_python(source):
+        if kind == "comment":
+            continue
+        if kind == "code" and parts and parts[-1][0] == "code":
+            parts[-1] = (kind, parts[-1][1] + text)
+        else:
+            parts.append((kind, text))
+    return "".join(
+        # Keep empty lines after a backslash, since those end the statement
+        re.sub(r"(?<!\\)\n\n+", "\n", re.sub(r"[ \t]+\n", "\n", text))
+        if kind == "code"
+        else text
+        for kind, text in parts
+    ).strip()
+
+
+def _split_python(source: str) -> list[tuple[str, str]]:
+    """Split Python source code into its string literals, its comments and all other code."""
+    offsets = [0]
+    for line in source.split("\n"):
+        offsets.append(offsets[-1] + len(line) + 1)
+
+    parts: list[tuple[str, str]] = []
+    position = 0
+    nesting: list[int] = []  # Begin of f-strings, which consist of many tokens
+    try:
+        for token in tokenize.generate_tokens(StringIO(source).readline):
+            kind = tokenize.tok_name[token.type]
+            start = offsets[token.start[0] - 1] + token.start[1]
+            end = offsets[token.end[0] - 1] + token.end[1]
+            if kind.endswith("STRING_START"):
+                nesting.append(start)
+            elif kind.endswith("STRING_END"):
+                start = nesting.pop()
+            if nesting or not (kind == "COMMENT" or kind.endswith(("STRING", "_END"))):
+                continue
+            parts.append(("code", source[position:start]))
+            parts.append(
+                ("comment" if kind == "COMMENT" else "string", source[start:end])
+            )
+            position = end
+    except (SyntaxError, tokenize.TokenError):
+        _logger.warning("Could not fully parse the Python code for PyScript.")
+    parts.append(("code", source[position:]))
+    return parts
+
+
+def _html_safe_literal(literal: str) -> str:
+    """Escape what would end or hide the end of the HTML script around a string literal."""
+    if re.match(r"[a-z]*r", literal, flags=re.IGNORECASE):
+        return literal  # There are no escape sequences in raw strings
+    literal = re.sub(r"<(?=/script)/", r"<\\x2f", literal, flags=re.IGNORECASE)
+    return literal.replace("<!--", r"<\x21--")
 
 
 PYSCRIPT_COMPONENT_TEMPLATE = minify_python(
@@ -76,15 +120,19 @@ def pyscript_executor_html(
 
     # Prepare the PyScript code block
     user_code = "\n".join(all_file_contents)  # Combine all user code
-    user_code = user_code.replace("\t", "    ")  # Normalize the text
-    user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
-    if f"def {root}():" not in user_code:
+    if not re.search(rf"\bdef\s+{re.escape(root)}\s*\(", user_code):
         raise ValueError(
             f"Could not find the root component function '{root}' in your PyScript file(s)."
         )
 
+    # Add indentation to match template, but leave multi-line strings as they are
+    user_code = "    " + "".join(
+        text.replace("\n", "\n    ") if kind == "code" else _html_safe_literal(text)
+        for kind, text in _split_python(user_code)
+    )
+
     # Insert the user code into the PyScript template
     return executor.replace("    def root(): ...", user_code)
 
-- 
2.43.0


From 8f230ec19343fbe075f0df60bccbacd6bb405a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 40/72] fix: escape the PyScript configuration within its HTML
 attribute

---
 src/reactpy/executors/pyscript/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 4161ee7..ecaf8c7 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -161,6 +161,7 @@ def pyscript_setup_html(
     """Renders the PyScript setup code."""
     hide_pyscript_debugger = f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript-hide-debug.css" />'
     pyscript_config = extend_pyscript_config(extra_py, extra_js, config)
+    pyscript_config = pyscript_config.replace("&", "&amp;").replace("'", "&#x27;")
 
     return (
         f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript/core.css" />'
-- 
2.43.0


From e4b4655568471357d668cf67d82bce51b8a4a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 41/72] fix: honour reconnect options of zero

---
 src/js/packages/@reactpy/client/src/mount.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/mount.tsx b/src/js/packages/@reactpy/client/src/mount.tsx
index df42881..ddb9194 100644
--- a/src/js/packages/@reactpy/client/src/mount.tsx
+++ b/src/js/packages/@reactpy/client/src/mount.tsx
@@ -24,10 +24,10 @@ export function mountReactPy(props: MountProps) {
       jsModulesPath: `${window.location.origin}${props.pathPrefix}modules/`,
     },
     reconnectOptions: {
-      interval: props.reconnectInterval || 750,
-      maxInterval: props.reconnectMaxInterval || 60000,
-      maxRetries: props.reconnectMaxRetries || 150,
-      backoffMultiplier: props.reconnectBackoffMultiplier || 1.25,
+      interval: props.reconnectInterval ?? 750,
+      maxInterval: props.reconnectMaxInterval ?? 60000,
+      maxRetries: props.reconnectMaxRetries ?? 150,
+      backoffMultiplier: props.reconnectBackoffMultiplier ?? 1.25,
     },
     mountElement: props.mountElement,
   });
-- 
2.43.0


From 4b6a13a929d8c109add48fa4ae71e6e05933579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 42/72] fix: never wait longer than the maximum reconnect
 interval

---
 src/js/packages/@reactpy/client/src/websocket.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/websocket.ts b/src/js/packages/@reactpy/client/src/websocket.ts
index 159b59e..eac257d 100644
--- a/src/js/packages/@reactpy/client/src/websocket.ts
+++ b/src/js/packages/@reactpy/client/src/websocket.ts
@@ -19,7 +19,8 @@ export function createReconnectingWebSocket(
 ) {
   const { interval, maxInterval, maxRetries, backoffMultiplier } = props;
   let retries = 0;
-  let currentInterval = interval;
+  const initialInterval = Math.min(interval, maxInterval);
+  let currentInterval = initialInterval;
   let everConnected = false;
   const closed = false;
   const socket: { current?: WebSocket } = {};
@@ -33,7 +34,7 @@ export function createReconnectingWebSocket(
     socket.current.onopen = () => {
       everConnected = true;
       log.info("Connected!");
-      currentInterval = interval;
+      currentInterval = initialInterval;
       retries = 0;
       if (props.onOpen) {
         props.onOpen();
-- 
2.43.0


From eb0f34f07b356a7d13a8d7d7ad1fad11321454e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 43/72] fix: replace the client's nodes with every update
 instead of merging into them

---
 .../@reactpy/client/src/components.tsx        | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index fe6004b..9342edc 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -1,4 +1,4 @@
-import { set as setJsonPointer } from "json-pointer";
+import { parse as parseJsonPointer } from "json-pointer";
 import type { MutableRefObject } from "preact/compat";
 import {
   createContext,
@@ -136,21 +136,33 @@ function debounceHandler(
   return wrapped;
 }
 
+/**
+ * Return a copy of ``node`` where the node at ``path`` is ``replacement``.
+ * Neither ``node`` nor anything below it is modified.
+ */
+function replaceNode(node: any, path: string[], replacement: ReactPyVdom): any {
+  if (path.length === 0) {
+    return replacement;
+  }
+  const [token, ...rest] = path;
+  const copy = Array.isArray(node) ? [...node] : { ...node };
+  copy[token] = replaceNode(copy[token], rest, replacement);
+  return copy;
+}
+
 export function Layout(props: { client: ReactPyClient }): JSX.Element {
-  const currentModel: ReactPyVdom = useState({ tagName: "" })[0];
-  const forceUpdate = useForceUpdate();
+  const [currentModel, setCurrentModel] = useState<ReactPyVdom>({
+    tagName: "",
+  });
 
   useEffect(
     () =>
-      props.client.onMessage("layout-update", ({ path, model }) => {
-        if (path === "") {
-          Object.assign(currentModel, model);
-        } else {
-          setJsonPointer(currentModel, path, model);
-        }
-        forceUpdate();
-      }),
-    [currentModel, props.client],
+      props.client.onMessage("layout-update", ({ path, model }) =>
+        setCurrentModel((current) =>
+          replaceNode(current, parseJsonPointer(path), model),
+        ),
+      ),
+    [props.client],
   );
 
   return (
@@ -473,11 +485,6 @@ function ImportedElement({ model }: { model: ReactPyVdom }) {
   }
 }
 
-function useForceUpdate() {
-  const [, setState] = useState(false);
-  return () => setState((old) => !old);
-}
-
 function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
   const vdomImportSource = model.importSource;
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
-- 
2.43.0


From 4cf624713d9345ed8f9e9035dfb501c04acb25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 44/72] fix: let PyScript's client leave the layout's updates
 unmodified

---
 src/reactpy/executors/pyscript/layout_handler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 1a49c75..95955b8 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -1,6 +1,7 @@
 # type: ignore
 import asyncio
 import logging
+from copy import deepcopy
 
 import js
 from jsonpointer import set_pointer
@@ -25,12 +26,14 @@ class ReactPyLayoutHandler:
     @staticmethod
     def update_model(update, root_model):
         """Apply an update ReactPy's internal DOM model."""
+        # The update belongs to the layout, while later updates modify the DOM model
+        model = deepcopy(update["model"])
         if update["path"]:
-            set_pointer(root_model, update["path"], update["model"])
+            set_pointer(root_model, update["path"], model)
         else:
             # clear old keys first, dict.update() alone would keep stale "children" around when the new model doesn't have any
             root_model.clear()
-            root_model.update(update["model"])
+            root_model.update(model)
 
     def render_html(self, layout, model):
         """Submit ReactPy's internal DOM model into the HTML DOM."""
-- 
2.43.0


From 7a6f0f3714ee9a6d3dd0ff2de72c7aa981490d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 45/72] fix: keep the throttle and debounce of event handlers
 across renderings

---
 .../@reactpy/client/src/components.tsx        | 101 +++++++++++-------
 .../packages/@reactpy/client/src/handler.ts   |  10 ++
 2 files changed, 75 insertions(+), 36 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 9342edc..9c2771e 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -13,6 +13,7 @@ import {
   HANDLER_MARKER,
   HANDLER_THROTTLE,
   isValidDebounce,
+  type RateLimit,
   type TaggedEventHandler,
 } from "./handler";
 import type {
@@ -25,6 +26,39 @@ import type { ReactPyClient } from "./client";
 
 const ClientContext = createContext<ReactPyClient>(null as any);
 
+/**
+ * The rate limits of an element's handlers, which are kept for as long as the
+ * element is displayed.
+ */
+function useRateLimits(): { [name: string]: RateLimit } {
+  return useRef<{ [name: string]: RateLimit }>({}).current;
+}
+
+function getRateLimit(
+  limits: { [name: string]: RateLimit },
+  name: string,
+): RateLimit {
+  return (limits[name] ??= { timer: null, pendingCall: null, lastFireTime: 0 });
+}
+
+function cancelPendingCall(limit: RateLimit): void {
+  if (limit.timer !== null) {
+    window.clearTimeout(limit.timer);
+  }
+  limit.timer = null;
+  limit.pendingCall = null;
+}
+
+function firePendingCall(limit: RateLimit): void {
+  const call = limit.pendingCall;
+  limit.timer = null;
+  limit.pendingCall = null;
+  if (call !== null) {
+    limit.lastFireTime = Date.now();
+    call();
+  }
+}
+
 /**
  * Wrap ``handler`` so its outgoing call is throttled to at most once per
  * ``intervalMs`` milliseconds. Subsequent calls inside the window are
@@ -37,37 +71,28 @@ const ClientContext = createContext<ReactPyClient>(null as any);
 function throttleHandler(
   handler: TaggedEventHandler,
   intervalMs: number,
+  limit: RateLimit,
 ): TaggedEventHandler {
   if (!isValidDebounce(intervalMs)) {
     return handler;
   }
-  let pendingArgs: any[] | null = null;
-  let timer: number | null = null;
-  let lastFireTime = 0;
 
   const wrapped = function (...args: any[]) {
-    const now = Date.now();
-    const elapsed = now - lastFireTime;
+    const elapsed = Date.now() - limit.lastFireTime;
     if (elapsed >= intervalMs) {
-      // Leading edge: fire immediately, then start a cooldown.
-      lastFireTime = now;
+      // Leading edge: fire immediately, then start a cooldown. A call that is
+      // still waiting for its late timer is superseded by this one.
+      cancelPendingCall(limit);
+      limit.lastFireTime = Date.now();
       (handler as (...a: any[]) => void)(...args);
       return;
     }
     // Trailing edge: remember the latest args and schedule a fire at the
     // end of the cooldown so no event is silently dropped.
-    pendingArgs = args;
-    if (timer === null) {
-      timer = window.setTimeout(
-        () => {
-          timer = null;
-          if (pendingArgs !== null) {
-            const callArgs = pendingArgs;
-            pendingArgs = null;
-            lastFireTime = Date.now();
-            (handler as (...a: any[]) => void)(...callArgs);
-          }
-        },
+    limit.pendingCall = () => (handler as (...a: any[]) => void)(...args);
+    if (limit.timer === null) {
+      limit.timer = window.setTimeout(
+        () => firePendingCall(limit),
         Math.max(0, intervalMs - elapsed),
       );
     }
@@ -102,26 +127,16 @@ function throttleHandler(
 function debounceHandler(
   handler: TaggedEventHandler,
   delayMs: number,
+  limit: RateLimit,
 ): TaggedEventHandler {
   if (!isValidDebounce(delayMs) || delayMs === 0) {
     return handler;
   }
-  let timer: number | null = null;
-  let pendingArgs: any[] | null = null;
 
   const wrapped = function (...args: any[]) {
-    pendingArgs = args;
-    if (timer !== null) {
-      window.clearTimeout(timer);
-    }
-    timer = window.setTimeout(() => {
-      timer = null;
-      if (pendingArgs !== null) {
-        const callArgs = pendingArgs;
-        pendingArgs = null;
-        (handler as (...a: any[]) => void)(...callArgs);
-      }
-    }, delayMs);
+    cancelPendingCall(limit);
+    limit.pendingCall = () => (handler as (...a: any[]) => void)(...args);
+    limit.timer = window.setTimeout(() => firePendingCall(limit), delayMs);
   } as TaggedEventHandler;
 
   // Preserve the tag markers so downstream code can still introspect
@@ -196,6 +211,7 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
 
 function StandardElement({ model }: { model: ReactPyVdom }) {
   const client = useContext(ClientContext);
+  const rateLimits = useRateLimits();
   const attrs = createAttributes(model, client);
   // Apply the throttle wrapper to tagged handlers. ``throttle`` works on
   // every element; ``debounce`` is intentionally only applied by
@@ -213,7 +229,11 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
     }
     const throttle = handler[HANDLER_THROTTLE];
     if (isValidDebounce(throttle)) {
-      attrs[name] = throttleHandler(handler, throttle as number);
+      attrs[name] = throttleHandler(
+        handler,
+        throttle as number,
+        getRateLimit(rateLimits, name),
+      );
     }
   }
   // Use createElement here to avoid warning about variable numbers of children not
@@ -230,6 +250,7 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
 
 function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const client = useContext(ClientContext);
+  const rateLimits = useRateLimits();
   const props = createAttributes(model, client);
   // ``_reactpy_ack_seq`` is set by the server to the highest sequence
   // number it has received from this element's event handlers. We use
@@ -347,10 +368,18 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     const handlerThrottle = givenHandler[HANDLER_THROTTLE];
     let wrapped: TaggedEventHandler = givenHandler;
     if (isValidDebounce(handlerThrottle)) {
-      wrapped = throttleHandler(wrapped, handlerThrottle as number);
+      wrapped = throttleHandler(
+        wrapped,
+        handlerThrottle as number,
+        getRateLimit(rateLimits, `${name}:throttle`),
+      );
     }
     if (isValidDebounce(handlerDebounce)) {
-      wrapped = debounceHandler(wrapped, handlerDebounce as number);
+      wrapped = debounceHandler(
+        wrapped,
+        handlerDebounce as number,
+        getRateLimit(rateLimits, `${name}:debounce`),
+      );
     }
 
     props[name] = (event: TargetedEvent<any>) => {
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index dc6db59..547b98d 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -16,6 +16,16 @@ export type TaggedEventHandler = ((event: Event) => void) & {
   [HANDLER_THROTTLE]?: number;
 };
 
+/**
+ * What is known about the recent calls of a throttled or debounced handler. It
+ * has to outlive the handler, which is created anew whenever its element renders.
+ */
+export type RateLimit = {
+  timer: number | null;
+  pendingCall: (() => void) | null;
+  lastFireTime: number;
+};
+
 /**
  * Returns true when the given value is a finite, non-negative integer.
  * Used to validate debounce/throttle values arriving over the wire from the
-- 
2.43.0


From db82b11a929423ead8608f1a0336db6701c63487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 46/72] fix: prevent the default action of throttled and
 debounced events at once

---
 .../packages/@reactpy/client/src/components.tsx |  5 +++++
 src/js/packages/@reactpy/client/src/handler.ts  |  3 +++
 src/js/packages/@reactpy/client/src/vdom.tsx    | 17 +++++++++++------
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 9c2771e..98cc45e 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -11,6 +11,7 @@ import { useContext, useEffect, useRef, useState } from "preact/hooks";
 import {
   HANDLER_DEBOUNCE,
   HANDLER_MARKER,
+  HANDLER_PREPARE,
   HANDLER_THROTTLE,
   isValidDebounce,
   type RateLimit,
@@ -78,6 +79,7 @@ function throttleHandler(
   }
 
   const wrapped = function (...args: any[]) {
+    args.forEach((event) => handler[HANDLER_PREPARE]?.(event));
     const elapsed = Date.now() - limit.lastFireTime;
     if (elapsed >= intervalMs) {
       // Leading edge: fire immediately, then start a cooldown. A call that is
@@ -101,6 +103,7 @@ function throttleHandler(
   // Preserve the tag markers so downstream code can still introspect the
   // wrapped function.
   wrapped[HANDLER_MARKER] = true;
+  wrapped[HANDLER_PREPARE] = handler[HANDLER_PREPARE];
   const debounce = handler[HANDLER_DEBOUNCE];
   if (typeof debounce === "number") {
     wrapped[HANDLER_DEBOUNCE] = debounce;
@@ -134,6 +137,7 @@ function debounceHandler(
   }
 
   const wrapped = function (...args: any[]) {
+    args.forEach((event) => handler[HANDLER_PREPARE]?.(event));
     cancelPendingCall(limit);
     limit.pendingCall = () => (handler as (...a: any[]) => void)(...args);
     limit.timer = window.setTimeout(() => firePendingCall(limit), delayMs);
@@ -142,6 +146,7 @@ function debounceHandler(
   // Preserve the tag markers so downstream code can still introspect
   // the wrapped function.
   wrapped[HANDLER_MARKER] = true;
+  wrapped[HANDLER_PREPARE] = handler[HANDLER_PREPARE];
   if (typeof handler[HANDLER_THROTTLE] === "number") {
     wrapped[HANDLER_THROTTLE] = handler[HANDLER_THROTTLE];
   }
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index 547b98d..434ab81 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -5,6 +5,7 @@
 export const HANDLER_MARKER = "isHandler" as const;
 export const HANDLER_DEBOUNCE = "debounce" as const;
 export const HANDLER_THROTTLE = "throttle" as const;
+export const HANDLER_PREPARE = "prepare" as const;
 
 export type HandlerMarker = typeof HANDLER_MARKER;
 export type HandlerDebounce = typeof HANDLER_DEBOUNCE;
@@ -14,6 +15,8 @@ export type TaggedEventHandler = ((event: Event) => void) & {
   [HANDLER_MARKER]: true;
   [HANDLER_DEBOUNCE]?: number;
   [HANDLER_THROTTLE]?: number;
+  /** What has to be done with an event at once, even if the handler is called later */
+  [HANDLER_PREPARE]?: (event: Event) => void;
 };
 
 /**
diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 0a12380..4579c03 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -3,6 +3,7 @@ import { Fragment } from "preact";
 import {
   HANDLER_DEBOUNCE,
   HANDLER_MARKER,
+  HANDLER_PREPARE,
   HANDLER_THROTTLE,
   isValidDebounce,
   isValidThrottle,
@@ -230,15 +231,18 @@ function createEventHandler(
   // behavior (no wrapper) is to use a per-handler counter starting
   // at 0.
   let outgoingSeq = 0;
+  const prepare = (event: Event): void => {
+    if (preventDefault) {
+      event.preventDefault();
+    }
+    if (stopPropagation) {
+      event.stopPropagation();
+    }
+  };
   const eventHandler = function (...args: any[]) {
     const data = Array.from(args).map((value) => {
       const event = value as Event;
-      if (preventDefault) {
-        event.preventDefault();
-      }
-      if (stopPropagation) {
-        event.stopPropagation();
-      }
+      prepare(event);
 
       // Convert JavaScript objects to plain JSON, if needed
       if (typeof event === "object") {
@@ -254,6 +258,7 @@ function createEventHandler(
     _reactpy_set_seq?: (n: number) => void;
   };
   eventHandler[HANDLER_MARKER] = true;
+  eventHandler[HANDLER_PREPARE] = prepare;
   eventHandler._reactpy_peek_seq = (): number => outgoingSeq;
   eventHandler._reactpy_set_seq = (n: number): void => {
     outgoingSeq = n;
-- 
2.43.0


From b7797b6d8e279dae1ab4d17e3051954dddc89c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 47/72] fix: do not acknowledge events which still wait for
 their handler

---
 src/reactpy/core/layout.py | 41 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index c8d61c5..c763901 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -13,7 +13,7 @@ from asyncio import (
     sleep,
     wait,
 )
-from collections import Counter
+from collections import Counter, deque
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
@@ -198,8 +198,8 @@ class Layout(BaseLayout):
         # so we can echo it back as ``ackSeq`` on the originating
         # element. The client uses this to decide whether the
         # server has caught up to the latest keystrokes.
-        seq = event.get("seq")
-        if isinstance(seq, int) and not isinstance(seq, bool) and seq >= 0:
+        seq = _get_event_seq(event)
+        if seq is not None:
             prev = self._last_event_seq_by_target.get(target, -1)
             if seq > prev:
                 self._last_event_seq_by_target[target] = seq
@@ -482,7 +482,8 @@ class Layout(BaseLayout):
         For each event handler bound to this element, we look up the
         highest client-assigned sequence number the server has received
         for that target and, if any was recorded, attach the maximum
-        across handlers as the element's ``ackSeq``.
+        across handlers as the element's ``ackSeq``, unless an earlier
+        event is still waiting.
         """
         if tag_name not in {"input", "select", "textarea"}:
             return
@@ -498,6 +499,15 @@ class Layout(BaseLayout):
                 max_ack = ack
         if max_ack is None:
             return
+        # The model cannot reflect events which are still waiting for their
+        # handler, even if a later event was received by another one.
+        for target in targets:
+            queue = self._event_queues.get(target)
+            first_waiting = queue.first_waiting_seq() if queue else None
+            if first_waiting is not None:
+                max_ack = min(max_ack, first_waiting - 1)
+        if max_ack < 0:
+            return
         attrs = new_state.model.current.get("attributes")
         if not isinstance(attrs, dict):
             return
@@ -957,6 +967,14 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._pending.clear()
 
 
+def _get_event_seq(event: LayoutEventMessage | dict[str, Any]) -> int | None:
+    """The client-assigned sequence number of an event (if any)"""
+    seq = event.get("seq")
+    if isinstance(seq, int) and not isinstance(seq, bool) and seq >= 0:
+        return seq
+    return None
+
+
 class _EventQueue:
     """Events for one target in the order they were delivered"""
 
@@ -966,24 +984,29 @@ class _EventQueue:
         )
         # Keeps the order of the events which wait for space in the queue
         self._put_lock = Lock()
-        self._num_events = 0
+        self._waiting: deque[LayoutEventMessage | dict[str, Any]] = deque()
 
     def is_idle(self) -> bool:
         """Whether no event is in the queue or is about to be put there"""
-        return self._num_events == 0
+        return not self._waiting
+
+    def first_waiting_seq(self) -> int | None:
+        """The lowest sequence number of the events nobody handles yet"""
+        seqs = map(_get_event_seq, self._waiting)
+        return min((seq for seq in seqs if seq is not None), default=None)
 
     async def put(self, event: LayoutEventMessage | dict[str, Any]) -> None:
-        self._num_events += 1
+        self._waiting.append(event)
         try:
             async with self._put_lock:
                 await self._queue.put(event)
         except BaseException:
-            self._num_events -= 1
+            self._waiting.remove(event)
             raise
 
     async def get(self) -> LayoutEventMessage | dict[str, Any]:
         event = await self._queue.get()
-        self._num_events -= 1
+        self._waiting.popleft()
         return event
 
     async def clear(self) -> None:
-- 
2.43.0


From 6a8bd10236e4a6b3ef0425f813740c78e8ea007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 48/72] fix: apply the server's value exactly when it knows the
 typed text

---
 .../@reactpy/client/src/components.tsx        | 105 ++++++++----------
 1 file changed, 45 insertions(+), 60 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 98cc45e..90ab004 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -5,9 +5,14 @@ import {
   createElement,
   Fragment,
   type JSX,
-  type TargetedEvent,
 } from "preact";
-import { useContext, useEffect, useRef, useState } from "preact/hooks";
+import {
+  useContext,
+  useEffect,
+  useLayoutEffect,
+  useRef,
+  useState,
+} from "preact/hooks";
 import {
   HANDLER_DEBOUNCE,
   HANDLER_MARKER,
@@ -278,18 +283,22 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     HTMLInputElement | HTMLSelectElement | HTMLTextAreaElement | null
   >(null);
   // Per-element (NOT per-handler) monotonic counter for outgoing
-  // events. The wrapper below installs this counter onto every
+  // events. ``send`` below installs this counter onto every
   // handler via ``_reactpy_set_seq`` so the counter survives
   // handler recreation on every server re-render. Each handler
   // has its own per-handler ``outgoingSeq`` (used as the default
   // when no wrapper is installed), but we override it here so the
   // element owns a single monotonic counter across handlers.
   const sharedOutgoingSeq = useRef(0);
-  // Highest sequence number actually sent. The server's
-  // ``_reactpy_ack_seq`` will catch up to this. ``sharedOutgoingSeq``
-  // is incremented optimistically in the wrapper; ``lastSentSeq``
-  // is the high-water mark.
+  // Sequence number of the last event that carried text which the
+  // server did not know yet. The server's ``_reactpy_ack_seq`` will
+  // catch up to this.
   const lastSentSeq = useRef(-1);
+  // The last value that was either sent to or received from the server.
+  const syncedValue = useRef<string | undefined>(undefined);
+  useLayoutEffect(() => {
+    syncedValue.current = inputRef.current?.value;
+  }, []);
 
   // honor changes to value from the client via props
   useEffect(() => {
@@ -310,14 +319,12 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // snapshot and is ignored; the next layout-update will be
     // applied once the server catches up.
     //
-    // We additionally compare against the DOM's actual current
-    // value via ``inputRef`` — when the server is supposedly
-    // caught up but its snapshot is shorter than what the user
-    // has in the DOM (a stale snapshot racing with the user's
-    // most recent keystroke), skip applying so we don't clobber
-    // the user's text. This handles the realistic case where the
-    // user types faster than the server can ack.
-    if (serverAckSeq < lastSentSeq.current) {
+    // The same goes for text which is going to be sent by a call that
+    // a ``throttle`` or ``debounce`` still holds back.
+    const unsent =
+      inputRef.current?.value !== syncedValue.current &&
+      Object.values(rateLimits).some((limit) => limit.pendingCall !== null);
+    if (serverAckSeq < lastSentSeq.current || unsent) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -347,6 +354,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     ) {
       inputRef.current.value = props.value;
     }
+    syncedValue.current = inputRef.current?.value;
     setValue(props.value);
   }, [props.value, serverAckSeq]);
 
@@ -371,7 +379,27 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // a debounce by default.
     const handlerDebounce = givenHandler[HANDLER_DEBOUNCE];
     const handlerThrottle = givenHandler[HANDLER_THROTTLE];
-    let wrapped: TaggedEventHandler = givenHandler;
+    let wrapped = ((event: Event) => {
+      // The number is assigned when the event is sent, and not when it
+      // occurs, since a ``throttle`` or ``debounce`` sends only some
+      // of the events. An event without new text (e.g. the press of a
+      // modifier key) does not have to be acknowledged: the server may
+      // not even render the element after having received it.
+      const seq = sharedOutgoingSeq.current++;
+      const value = inputRef.current?.value;
+      if (value !== syncedValue.current) {
+        syncedValue.current = value;
+        lastSentSeq.current = seq;
+      }
+      (
+        givenHandler as TaggedEventHandler & {
+          _reactpy_set_seq?: (n: number) => void;
+        }
+      )._reactpy_set_seq?.(seq);
+      givenHandler(event);
+    }) as TaggedEventHandler;
+    wrapped[HANDLER_MARKER] = true;
+    wrapped[HANDLER_PREPARE] = givenHandler[HANDLER_PREPARE];
     if (isValidDebounce(handlerThrottle)) {
       wrapped = throttleHandler(
         wrapped,
@@ -387,50 +415,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       );
     }
 
-    props[name] = (event: TargetedEvent<any>) => {
-      // Use a per-element (shared across all handlers on this
-      // element) monotonic counter for outgoing events. We
-      // overwrite the handler's own ``outgoingSeq`` with this
-      // counter so the wire-format seq number reflects the
-      // element-wide sequence. The handler closure's own
-      // ``outgoingSeq`` is unused for sequencing purposes now
-      // (it still exists as a default for non-wrapped callers).
-      //
-      // Critically, we increment the seq counter and update
-      // ``lastSentSeq`` on every *user* event, not on every
-      // server dispatch. If the handler is wrapped in a
-      // debounce that coalesces several events into one server
-      // dispatch, ``lastSentSeq`` will be higher than the seq
-      // actually sent to the server, which is fine — the seq
-      // we sent is the LATEST user-typed value, which is the
-      // one the server actually processed.
-      const seq = sharedOutgoingSeq.current++;
-      if (seq > lastSentSeq.current) {
-        lastSentSeq.current = seq;
-      }
-      const taggedHandler = givenHandler as TaggedEventHandler & {
-        _reactpy_set_seq?: (n: number) => void;
-      };
-      if (typeof taggedHandler._reactpy_set_seq === "function") {
-        // Push the handler's internal counter past our seq so
-        // the next (possibly debounced) dispatch uses a seq
-        // number that matches what the user just typed, not
-        // whatever stale value the handler closure happened
-        // to have left over.
-        taggedHandler._reactpy_set_seq(seq + 1);
-      }
-
-      // ``onKeyPress`` fires before the DOM has been updated with
-      // the new keystroke — ``event.target.value`` is the value
-      // BEFORE the character was added. We deliberately do NOT
-      // trust it for value-tracking. ``onChange``/``onInput`` fire
-      // after the DOM has been updated and can be trusted, but we
-      // don't even need to track it separately here — the
-      // reconcile effect reads the DOM directly via ``inputRef``
-      // so it always sees the post-keystroke value.
-
-      wrapped(event);
-    };
+    props[name] = wrapped;
   }
 
   // Use createElement here to avoid warning about variable numbers of children not
-- 
2.43.0


From 964b0d0f4caa42e241af3f02c7c122861ad588dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 49/72] fix: leave out only what cannot be read when
 serializing events

---
 src/js/packages/event-to-object/src/index.ts | 247 ++++++++++---------
 1 file changed, 130 insertions(+), 117 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index f6aebe6..444273e 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -21,25 +21,9 @@ export default function convert(
   visited.add(classObject);
   const convertedObj: { [key: string]: any } = {};
   for (const key in classObject) {
-    // Skip keys that cannot be converted
-    try {
-      if (shouldIgnoreValue(classObject[key], key)) {
-        continue;
-      }
-      // Handle objects (potentially cyclical)
-      else if (typeof classObject[key] === "object") {
-        const result = deepCloneClass(classObject[key], maxDepth, visited);
-        if (result !== maxDepthSignal) {
-          convertedObj[key] = result;
-        }
-      }
-      // Handle simple types (non-cyclical)
-      else {
-        convertedObj[key] = classObject[key];
-      }
-    } catch {
-      continue;
-    }
+    include(convertedObj, key, () =>
+      convertValue(classObject[key], key, undefined, maxDepth, visited),
+    );
   }
 
   // Special case: Event selection
@@ -54,6 +38,49 @@ export default function convert(
   return convertedObj;
 }
 
+/**
+ * Convert a single value, which is a property or an item of ``parent``.
+ *
+ * Returns ``maxDepthSignal`` if it should be left out.
+ */
+function convertValue(
+  value: any,
+  key: string,
+  parent: any,
+  maxDepth: number,
+  visited: WeakSet<any>,
+): any {
+  // Skip anything that should not be converted
+  if (shouldIgnoreValue(value, key, parent)) {
+    return maxDepthSignal;
+  }
+  // Handle objects (potentially cyclical)
+  if (typeof value === "object") {
+    return deepCloneClass(value, maxDepth, visited);
+  }
+  // Handle simple types (non-cyclical)
+  return value;
+}
+
+/**
+ * Set a property to the result of ``getValue``, unless there is none or it
+ * cannot be determined (e.g. because a property cannot be read).
+ */
+function include(
+  result: { [key: string]: any },
+  key: string,
+  getValue: () => any,
+): void {
+  try {
+    const value = getValue();
+    if (value !== maxDepthSignal) {
+      result[key] = value;
+    }
+  } catch {
+    return;
+  }
+}
+
 /**
  * Serialize the current window selection.
  */
@@ -68,15 +95,21 @@ function serializeSelection(
   if (!selection) {
     return null;
   }
+  const convertNode = (node: Node | null) => {
+    try {
+      const converted = node
+        ? deepCloneClass(node, maxDepth, visited)
+        : maxDepthSignal;
+      return converted === maxDepthSignal ? null : converted;
+    } catch {
+      return null;
+    }
+  };
   return {
     type: selection.type,
-    anchorNode: selection.anchorNode
-      ? deepCloneClass(selection.anchorNode, maxDepth, visited)
-      : null,
+    anchorNode: convertNode(selection.anchorNode),
     anchorOffset: selection.anchorOffset,
-    focusNode: selection.focusNode
-      ? deepCloneClass(selection.focusNode, maxDepth, visited)
-      : null,
+    focusNode: convertNode(selection.focusNode),
     focusOffset: selection.focusOffset,
     isCollapsed: selection.isCollapsed,
     rangeCount: selection.rangeCount,
@@ -111,13 +144,7 @@ function deepCloneClass(
 
   try {
     // Convert array-like class (e.g., NodeList, ClassList, HTMLCollection)
-    if (
-      Array.isArray(x) ||
-      (typeof x?.length === "number" &&
-        typeof x[Symbol.iterator] === "function" &&
-        !Object.prototype.toString.call(x).includes("Map") &&
-        !(x instanceof CSSStyleDeclaration))
-    ) {
+    if (isArrayLike(x)) {
       return classToArray(x, maxDepth, visited);
     }
 
@@ -128,6 +155,23 @@ function deepCloneClass(
   }
 }
 
+/**
+ * Check if an object is an array or an array-like class.
+ */
+function isArrayLike(x: any): boolean {
+  try {
+    return (
+      Array.isArray(x) ||
+      (typeof x?.length === "number" &&
+        typeof x[Symbol.iterator] === "function" &&
+        !Object.prototype.toString.call(x).includes("Map") &&
+        !(x instanceof CSSStyleDeclaration))
+    );
+  } catch {
+    return false;
+  }
+}
+
 /**
  * Convert an array-like class to a plain array.
  */
@@ -138,20 +182,14 @@ function classToArray(
 ): Array<any> {
   const result: Array<any> = [];
   for (let i = 0; i < x.length; i++) {
-    // Skip anything that should not be converted
-    if (shouldIgnoreValue(x[i])) {
-      continue;
-    }
-    // Only push objects as if we haven't reached max depth
-    else if (typeof x[i] === "object") {
-      const converted = deepCloneClass(x[i], maxDepth, visited);
+    // Only push what should and can be converted
+    try {
+      const converted = convertValue(x[i], "", undefined, maxDepth, visited);
       if (converted !== maxDepthSignal) {
         result.push(converted);
       }
-    }
-    // Add plain values if not skippable
-    else {
-      result.push(x[i]);
+    } catch {
+      continue;
     }
   }
   return result;
@@ -168,67 +206,22 @@ function classToObject(
   visited: WeakSet<any>,
 ): object {
   const result: { [key: string]: any } = {};
-  for (const key in x) {
-    try {
-      // Skip anything that should not be converted
-      if (shouldIgnoreValue(x[key], key, x)) {
-        continue;
-      }
-      // Add objects as a property if we haven't reached max depth
-      else if (typeof x[key] === "object") {
-        const converted = deepCloneClass(x[key], maxDepth, visited);
-        if (converted !== maxDepthSignal) {
-          result[key] = converted;
-        }
-      }
-      // Add plain values if not skippable
-      else {
-        result[key] = x[key];
-      }
-    } catch {
-      continue;
-    }
-  }
+  const includeProperty = (key: string, depth: number) =>
+    include(result, key, () => convertValue(x[key], key, x, depth, visited));
 
-  // Explicitly include dataset if it exists (it might not be enumerable)
-  if (
-    x &&
-    typeof x === "object" &&
-    "dataset" in x &&
-    !Object.prototype.hasOwnProperty.call(result, "dataset")
-  ) {
-    const dataset = x["dataset"];
-    if (!shouldIgnoreValue(dataset, "dataset", x)) {
-      const converted = deepCloneClass(dataset, maxDepth, visited);
-      if (converted !== maxDepthSignal) {
-        result["dataset"] = converted;
-      }
-    }
+  for (const key in x) {
+    includeProperty(key, maxDepth);
   }
 
-  // Explicitly include common input properties if they exist
-  const extraProps = ["value", "checked", "files", "type", "name"];
+  // Explicitly include the dataset and common input properties if they exist
+  // (they might not be enumerable)
+  const extraProps = ["dataset", "value", "checked", "files", "type", "name"];
   for (const prop of extraProps) {
-    if (
-      x &&
-      typeof x === "object" &&
-      prop in x &&
-      !Object.prototype.hasOwnProperty.call(result, prop)
-    ) {
-      const val = x[prop];
-      if (!shouldIgnoreValue(val, prop, x)) {
-        if (typeof val === "object") {
-          // Ensure files have enough depth to be serialized
-          const propDepth = prop === "files" ? Math.max(maxDepth, 3) : maxDepth;
-          const converted = deepCloneClass(val, propDepth, visited);
-          if (converted !== maxDepthSignal) {
-            result[prop] = converted;
-          }
-        } else {
-          result[prop] = val;
-        }
-      }
+    if (Object.prototype.hasOwnProperty.call(result, prop) || !(prop in x)) {
+      continue;
     }
+    // Ensure files have enough depth to be serialized
+    includeProperty(prop, prop === "files" ? Math.max(maxDepth, 3) : maxDepth);
   }
 
   // Explicitly include form elements if they exist and are not enumerable
@@ -240,29 +233,49 @@ function classToObject(
       ? HTMLFormElement
       : undefined;
 
-  if (FormClass && x instanceof FormClass && x.elements) {
-    for (let i = 0; i < x.elements.length; i++) {
-      const element = x.elements[i] as any;
-      if (
-        element.name &&
-        !Object.prototype.hasOwnProperty.call(result, element.name) &&
-        !shouldIgnoreValue(element, element.name, x)
-      ) {
-        if (typeof element === "object") {
-          const converted = deepCloneClass(element, maxDepth, visited);
-          if (converted !== maxDepthSignal) {
-            result[element.name] = converted;
-          }
-        } else {
-          result[element.name] = element;
-        }
-      }
-    }
+  if (FormClass && x instanceof FormClass) {
+    includeFormElements(result, x, maxDepth, visited);
   }
 
   return result;
 }
 
+/**
+ * Include the elements of a form by their names.
+ */
+function includeFormElements(
+  result: { [key: string]: any },
+  form: any,
+  maxDepth: number,
+  visited: WeakSet<any>,
+): void {
+  let elements: any;
+  try {
+    elements = form.elements ?? [];
+  } catch {
+    return;
+  }
+  for (let i = 0; i < elements.length; i++) {
+    let element: any;
+    let name: any;
+    try {
+      element = elements[i];
+      name = element.name;
+    } catch {
+      continue;
+    }
+    if (
+      typeof name === "string" &&
+      name !== "" &&
+      !Object.prototype.hasOwnProperty.call(result, name)
+    ) {
+      include(result, name, () =>
+        convertValue(element, name, form, maxDepth, visited),
+      );
+    }
+  }
+}
+
 /**
  * Check if a value is non-convertible or holds minimal value.
  */
-- 
2.43.0


From 4660109d77d767b37010fe6834309b895d6398c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 50/72] fix: serialize events which hold BigInts or symbols

---
 src/js/packages/event-to-object/src/index.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 444273e..022a484 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -58,6 +58,10 @@ function convertValue(
   if (typeof value === "object") {
     return deepCloneClass(value, maxDepth, visited);
   }
+  // JSON has no integers of arbitrary size
+  if (typeof value === "bigint") {
+    return value.toString();
+  }
   // Handle simple types (non-cyclical)
   return value;
 }
@@ -292,6 +296,7 @@ function shouldIgnoreValue(
     (keyName.length > 0 && /^[A-Z_]+$/.test(keyName)) ||
     // Non-convertible types
     typeof value === "function" ||
+    typeof value === "symbol" ||
     value instanceof CSSStyleSheet ||
     value instanceof Window ||
     value instanceof Document ||
-- 
2.43.0


From 6e0c8fa2a116eafdaac00d6ae693fd73faf22a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 51/72] fix: limit the depth of files when serializing events

---
 src/js/packages/event-to-object/src/index.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 022a484..ab9fc0b 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -1,5 +1,8 @@
 const maxDepthSignal = { __stop__: true };
 
+// Marks in the set of visited objects that a list of files is being converted
+const filesMarker = {};
+
 /**
  * Convert any class object (such as `Event`) to a plain object.
  */
@@ -224,8 +227,15 @@ function classToObject(
     if (Object.prototype.hasOwnProperty.call(result, prop) || !(prop in x)) {
       continue;
     }
-    // Ensure files have enough depth to be serialized
-    includeProperty(prop, prop === "files" ? Math.max(maxDepth, 3) : maxDepth);
+    // Ensure files have enough depth to be serialized, but only once so that
+    // the depth remains limited
+    if (prop === "files" && !visited.has(filesMarker)) {
+      visited.add(filesMarker);
+      includeProperty(prop, Math.max(maxDepth, 3));
+      visited.delete(filesMarker);
+    } else {
+      includeProperty(prop, maxDepth);
+    }
   }
 
   // Explicitly include form elements if they exist and are not enumerable
-- 
2.43.0


From 0bdf45288ba1c793d874c1592512390f1d66f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 52/72] fix: include form elements whatever their name is when
 serializing events

---
 src/js/packages/event-to-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index ab9fc0b..c9d09cb 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -281,10 +281,12 @@ function includeFormElements(
     if (
       typeof name === "string" &&
       name !== "" &&
+      !name.startsWith("__") &&
       !Object.prototype.hasOwnProperty.call(result, name)
     ) {
+      // Whichever name the element was given, it holds data of the form
       include(result, name, () =>
-        convertValue(element, name, form, maxDepth, visited),
+        convertValue(element, "", undefined, maxDepth, visited),
       );
     }
   }
-- 
2.43.0


From 987d7ef559d7a5f01ac121f3f11dea5d5ba546d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 53/72] fix: keep a file's size when serializing events

---
 src/js/packages/event-to-object/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index c9d09cb..29d64f1 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -313,7 +313,7 @@ function shouldIgnoreValue(
     value instanceof Window ||
     value instanceof Document ||
     keyName === "view" ||
-    keyName === "size" ||
+    (keyName === "size" && !(parent instanceof Blob)) ||
     keyName === "length" ||
     (parent instanceof CSSStyleDeclaration && value === "") ||
     // DOM Node Blacklist
-- 
2.43.0


From 8a320b82b16fd286d97b3531453be39bbbba780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 54/72] fix: display the fallback of a JavaScript component
 while its module loads

---
 .../@reactpy/client/src/components.tsx        | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 90ab004..9abc54b 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -482,29 +482,31 @@ function ScriptElement({ model }: { model: ReactPyVdom }) {
 
 function ImportedElement({ model }: { model: ReactPyVdom }) {
   const importSourceVdom = model.importSource;
-  const importSourceRef = useImportSource(model);
+  const { mountPoint, isLoaded } = useImportSource(model);
 
   if (!importSourceVdom) {
     return null;
   }
 
-  const importSourceFallback = importSourceVdom.fallback;
+  // display a fallback while the import source loads, if one was given
+  const importSourceFallback = isLoaded ? null : importSourceVdom.fallback;
 
-  if (!importSourceVdom) {
-    // display a fallback if one was given
-    if (!importSourceFallback) {
-      return null;
-    } else if (typeof importSourceFallback === "string") {
-      return <span>{importSourceFallback}</span>;
-    } else {
-      return <StandardElement model={importSourceFallback} />;
-    }
-  } else {
-    return <span ref={importSourceRef} />;
-  }
+  return (
+    <Fragment>
+      {typeof importSourceFallback === "string" ? (
+        <span>{importSourceFallback}</span>
+      ) : importSourceFallback ? (
+        <Element model={importSourceFallback} />
+      ) : null}
+      <span key="mount-point" ref={mountPoint} />
+    </Fragment>
+  );
 }
 
-function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
+function useImportSource(model: ReactPyVdom): {
+  mountPoint: MutableRefObject<any>;
+  isLoaded: boolean;
+} {
   const vdomImportSource = model.importSource;
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
   const mountPoint = useRef<HTMLElement>(null);
@@ -552,7 +554,11 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
     }
   });
 
-  return mountPoint;
+  return {
+    mountPoint,
+    isLoaded:
+      binding !== null && bindingSource.current === vdomImportSourceJsonString,
+  };
 }
 
 const SPECIAL_ELEMENTS = {
-- 
2.43.0


From 59aa59cd5603a531c59df1e005ba38ac5d902072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 55/72] fix: bind components of JavaScript modules only once

---
 src/js/packages/@reactpy/client/src/components.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 9abc54b..2e370c4 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -538,7 +538,7 @@ function useImportSource(model: ReactPyVdom): {
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding, mountPoint.current]);
+  }, [client, vdomImportSourceJsonString, setBinding]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-- 
2.43.0


From 3f4ab0b2deb68cea260ca342ef9393bfdd61331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 56/72] fix: rewrite only the changed calls and keep everything
 around them

Rewriting counted columns in characters where the syntax tree counts bytes,
dropped all but the first of several changes on one line, turned 'elif' into
'if', duplicated comments which were not overwritten, replaced tabs, changed
multi-line strings and re-formatted whole compound statements.
---
 src/reactpy/_console/ast_utils.py | 156 ++++++++++++++++--------------
 1 file changed, 83 insertions(+), 73 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c0ce6b2..70be0c5 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -2,11 +2,17 @@
 from __future__ import annotations
 
 import ast
+import re
+import sys
+from bisect import bisect_right
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
+from io import StringIO
+from itertools import accumulate
 from pathlib import Path
-from textwrap import indent
 from tokenize import COMMENT as COMMENT_TOKEN
+from tokenize import NEWLINE as NEWLINE_TOKEN
+from tokenize import NL as NL_TOKEN
 from tokenize import generate_tokens
 from typing import Any
 
@@ -23,74 +29,87 @@ def rewrite_changed_nodes(
 ) -> str:
     ast.fix_missing_locations(tree)
 
-    lines = source.split("\n")
-
-    # find closest parent nodes that should be re-written
-    nodes_to_unparse: list[ast.AST] = []
-    for change in changed:
-        node_lineage = [change.node, *change.parents]
-        for i in range(len(node_lineage) - 1):
-            current_node, next_node = node_lineage[i : i + 2]
-            if (
-                not hasattr(next_node, "lineno")
-                or next_node.lineno < change.node.lineno
-                or isinstance(next_node, (ast.ClassDef, ast.FunctionDef))
-            ):
-                nodes_to_unparse.append(current_node)
-                break
-        else:  # nocov
-            msg = "Failed to change code"
-            raise RuntimeError(msg)
-
-    # check if an nodes to rewrite contain each other, pick outermost nodes
-    current_outermost_node, *sorted_nodes_to_unparse = sorted(
-        nodes_to_unparse, key=lambda n: n.lineno
-    )
-    outermost_nodes_to_unparse = [current_outermost_node]
-    for node in sorted_nodes_to_unparse:
-        if (
-            not current_outermost_node.end_lineno
-            or node.lineno > current_outermost_node.end_lineno
-        ):
-            current_outermost_node = node
-            outermost_nodes_to_unparse.append(node)
-
-    moved_comment_lines_from_end: list[int] = []
-    # now actually rewrite these nodes (in reverse to avoid changes earlier in file)
-    for node in reversed(outermost_nodes_to_unparse):
+    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", source)
+    line_starts = [0, *accumulate(map(len, lines))]
+
+    def offset(lineno: int, col_offset: int) -> int:
+        # the AST counts columns in UTF-8 bytes
+        before = lines[lineno - 1].encode()[:col_offset]
+        return line_starts[lineno - 1] + len(before.decode())
+
+    # pick the outermost nodes, rewriting these rewrites the ones they contain too
+    outermost: list[tuple[int, int, ast.expr]] = []
+    for start, end, node in sorted(
+        (
+            (
+                offset(node.lineno, node.col_offset),
+                offset(node.end_lineno or 0, node.end_col_offset or 0),
+                node,
+            )
+            for node in map(_find_node_to_unparse, changed)
+        ),
+        key=lambda item: (item[0], -item[1]),
+    ):
+        if not outermost or start >= outermost[-1][1]:
+            outermost.append((start, end, node))
+
+    comments: list[tuple[int, str]] = []
+    lines_to_comment_above = {1}
+    for token in generate_tokens(StringIO(source).readline):
+        lineno, column = token.start
+        if token.type == COMMENT_TOKEN:
+            comments.append((line_starts[lineno - 1] + column, token.string))
+        elif token.type in (NEWLINE_TOKEN, NL_TOKEN):
+            # excludes lines which continue a string or follow a backslash
+            lines_to_comment_above.add(lineno + 1)
+
+    edits: list[tuple[int, int, str]] = []
+    moved_comments: dict[int, list[str]] = {}
+    for start, end, node in outermost:
+        edits.append((start, end, ast.unparse(node)))
         # make a best effort to preserve any comments that we're going to overwrite
-        comments = _find_comments(lines[node.lineno - 1 : node.end_lineno])
-
-        # there may be some content just before and after the content we're re-writing
-        before_replacement = lines[node.lineno - 1][: node.col_offset].lstrip()
-
-        after_replacement = (
-            lines[node.end_lineno - 1][node.end_col_offset :].strip()
-            if node.end_lineno is not None and node.end_col_offset is not None
-            else ""
-        )
-
-        replacement = indent(
-            before_replacement
-            + "\n".join([*comments, ast.unparse(node)])
-            + after_replacement,
-            " " * (node.col_offset - len(before_replacement)),
-        )
-
-        lines[node.lineno - 1 : node.end_lineno or node.lineno] = [replacement]
-
-        if comments:
-            moved_comment_lines_from_end.append(len(lines) - node.lineno)
-
-    for lineno_from_end in sorted(set(moved_comment_lines_from_end)):
-        click.echo(f"Moved comments to {file}:{len(lines) - lineno_from_end}")
-
-    return "\n".join(lines)
+        overwritten = [text for position, text in comments if start < position < end]
+        if overwritten:
+            lineno = bisect_right(line_starts, start)
+            while lineno not in lines_to_comment_above or any(
+                first < line_starts[lineno - 1] < last for first, last, _ in outermost
+            ):
+                lineno -= 1
+            moved_comments.setdefault(lineno, []).extend(overwritten)
+
+    for lineno, texts in moved_comments.items():
+        line = lines[lineno - 1]
+        margin = line[: len(line) - len(line.lstrip(" \t\f"))]
+        newline = line[len(line.rstrip("\r\n")) :] or "\n"
+        start = line_starts[lineno - 1]
+        edits.append((start, start, "".join(margin + t + newline for t in texts)))
+
+    # now actually rewrite these nodes
+    result = ""
+    position = 0
+    for start, end, replacement in sorted(edits):
+        result += source[position:start]
+        if start == end:
+            click.echo(f"Moved comments to {file}:{len(result.splitlines()) + 1}")
+        result += replacement
+        position = end
+
+    return result + source[position:]
+
+
+def _find_node_to_unparse(change: ChangedNode) -> ast.expr:
+    node = change.node
+    if sys.version_info < (3, 12):  # nocov
+        # the positions of nodes within f-strings are only accurate since Python 3.12
+        for parent in change.parents:
+            if isinstance(parent, ast.JoinedStr):
+                node = parent
+    return node
 
 
 @dataclass
 class ChangedNode:
-    node: ast.AST
+    node: ast.expr
     parents: Sequence[ast.AST]
 
 
@@ -169,15 +188,6 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
-def _find_comments(lines: list[str]) -> list[str]:
-    iter_lines = iter(lines)
-    return [
-        token
-        for token_type, token, _, _, _ in generate_tokens(lambda: next(iter_lines))
-        if token_type == COMMENT_TOKEN
-    ]
-
-
 def _walk_with_parent(
     node: ast.AST, parents: tuple[ast.AST, ...] = ()
 ) -> Iterator[tuple[tuple[ast.AST, ...], ast.AST]]:
-- 
2.43.0


From 928ef7278a2763e00b2f614295d56a57007699c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 57/72] fix: rewrite calls of element constructors only

Every name is an attribute of 'html', so that any function called with a
dictionary was taken for an element, and an empty dictionary was added to all
calls without arguments within rewritten code.
---
 src/reactpy/_console/ast_utils.py    | 106 +++++++++++++--------------
 src/reactpy/_console/rewrite_keys.py |  44 +++++------
 2 files changed, 73 insertions(+), 77 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 70be0c5..38d9af8 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -5,7 +5,7 @@ import ast
 import re
 import sys
 from bisect import bisect_right
-from collections.abc import Iterator, Sequence
+from collections.abc import Callable, Iterator, Sequence
 from dataclasses import dataclass
 from io import StringIO
 from itertools import accumulate
@@ -14,11 +14,11 @@ from tokenize import COMMENT as COMMENT_TOKEN
 from tokenize import NEWLINE as NEWLINE_TOKEN
 from tokenize import NL as NL_TOKEN
 from tokenize import generate_tokens
-from typing import Any
+from typing import TypeGuard
 
 import click
 
-from reactpy import html
+from reactpy._html import HtmlConstructor
 
 
 def rewrite_changed_nodes(
@@ -114,71 +114,65 @@ class ChangedNode:
 
 
 def find_element_constructor_usages(
-    tree: ast.AST, add_props: bool = False
+    tree: ast.AST, add_props: Callable[[ast.Call], bool] | None = None
 ) -> Iterator[ElementConstructorInfo]:
-    changed: list[Sequence[ast.AST]] = []
+    """Find calls of element constructors and the attributes they are given
+
+    If there are no attributes, an empty dictionary is added to the calls selected by
+    ``add_props`` and the others are left out.
+    """
     for parents, node in _walk_with_parent(tree):
         if not (isinstance(node, ast.Call)):
             continue
 
-        func = node.func
-        if isinstance(func, ast.Attribute) and (
-            (isinstance(func.value, ast.Name) and func.value.id == "html")
-            or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")
-        ):
-            name = func.attr
-        elif isinstance(func, ast.Name):
-            name = func.id
-        else:
+        name = get_element_constructor_name(node)
+        if name is None:
             continue
 
-        maybe_attr_dict_node: Any | None = None
-
+        props_index = 0
         if name == "vdom":
-            if len(node.args) == 0:
+            if not node.args or isinstance(node.args[0], ast.Starred):
                 continue
-            elif len(node.args) == 1:
-                maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
-                    node.args.append(maybe_attr_dict_node)
-                else:
-                    continue
-            elif isinstance(node.args[1], (ast.Constant, ast.JoinedStr)):
-                maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
-                    node.args.insert(1, maybe_attr_dict_node)
-                else:
-                    continue
-            elif len(node.args) >= 2:  # noqa: PLR2004
-                maybe_attr_dict_node = node.args[1]
-        elif hasattr(html, name):
-            if len(node.args) == 0:
-                maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
-                    node.args.append(maybe_attr_dict_node)
-                else:
-                    continue
-            elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):
-                maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
-                    node.args.insert(0, maybe_attr_dict_node)
-                else:
-                    continue
-            else:
-                maybe_attr_dict_node = node.args[0]
-
-        if not maybe_attr_dict_node:
-            continue
+            props_index = 1
 
-        if isinstance(maybe_attr_dict_node, ast.Dict) or (
-            isinstance(maybe_attr_dict_node, ast.Call)
-            and isinstance(maybe_attr_dict_node.func, ast.Name)
-            and maybe_attr_dict_node.func.id == "dict"
-            and isinstance(maybe_attr_dict_node.func.ctx, ast.Load)
+        if len(node.args) == props_index or isinstance(
+            node.args[props_index], (ast.Constant, ast.JoinedStr)
         ):
-            yield ElementConstructorInfo(node, maybe_attr_dict_node, parents)
+            if add_props is None or not add_props(node):
+                continue
+            props: ast.expr = ast.Dict(keys=[], values=[])
+            node.args.insert(props_index, props)
+        else:
+            props = node.args[props_index]
+
+        if isinstance(props, ast.Dict) or is_dict_call(props):
+            yield ElementConstructorInfo(node, props, parents)
+
+
+def get_element_constructor_name(call: ast.Call) -> str | None:
+    """Get the name of the element constructor, or None if it's another function"""
+    func = call.func
+    if isinstance(func, ast.Attribute) and (
+        (isinstance(func.value, ast.Name) and func.value.id == "html")
+        or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")
+    ):
+        return func.attr
+    elif isinstance(func, ast.Name) and is_element_name(func.id):
+        return func.id
+    return None
+
+
+def is_element_name(name: str | None) -> bool:
+    # all names are attributes of `html`, but only these are known to be elements
+    return name == "vdom" or name in HtmlConstructor.__annotations__
+
 
-    return changed
+def is_dict_call(node: ast.expr) -> TypeGuard[ast.Call]:
+    return (
+        isinstance(node, ast.Call)
+        and isinstance(node.func, ast.Name)
+        and node.func.id == "dict"
+    )
 
 
 @dataclass
diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e5ae207..e6261f1 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -5,10 +5,11 @@ from pathlib import Path
 
 import click
 
-from reactpy import html
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    get_element_constructor_name,
+    is_element_name,
     rewrite_changed_nodes,
 )
 
@@ -68,20 +69,20 @@ def generate_rewrite(file: Path, source: str) -> str | None:
 
 def find_nodes_to_change(tree: ast.AST) -> list[ChangedNode]:
     changed: list[ChangedNode] = []
-    for el_info in find_element_constructor_usages(tree, add_props=True):
-        for kw in list(el_info.call.keywords):
-            if kw.arg == "key":
-                break
-        else:
+    for el_info in find_element_constructor_usages(tree, add_props=_has_key):
+        if not _has_key(el_info.call):
             continue
 
         if isinstance(el_info.props, ast.Dict):
+            key = _pop_key(el_info.call)
             el_info.props.keys.append(ast.Constant("key"))
-            el_info.props.values.append(kw.value)
+            el_info.props.values.append(key.value)
+        elif not _has_key(el_info.props):
+            el_info.props.keywords.append(_pop_key(el_info.call))
         else:
-            el_info.props.keywords.append(ast.keyword(arg="key", value=kw.value))
+            # the same keyword can't be given to dict() twice
+            continue
 
-        el_info.call.keywords.remove(kw)
         changed.append(ChangedNode(el_info.call, el_info.parents))
 
     return changed
@@ -89,18 +90,19 @@ def find_nodes_to_change(tree: ast.AST) -> list[ChangedNode]:
 
 def log_could_not_rewrite(file: Path, tree: ast.AST) -> None:
     for node in ast.walk(tree):
-        if not (isinstance(node, ast.Call) and node.keywords):
-            continue
-
-        func = node.func
-        if isinstance(func, ast.Attribute):
-            name = func.attr
-        elif isinstance(func, ast.Name):
-            name = func.id
-        else:
+        if not (isinstance(node, ast.Call) and _has_key(node)):
             continue
 
-        if name == "vdom" or (
-            hasattr(html, name) and any(kw.arg == "key" for kw in node.keywords)
-        ):
+        # the element may come from an alias of the html module
+        name = node.func.attr if isinstance(node.func, ast.Attribute) else None
+        if is_element_name(name) or get_element_constructor_name(node) is not None:
             click.echo(f"Unable to rewrite usage at {file}:{node.lineno}")
+
+
+def _has_key(call: ast.Call) -> bool:
+    return any(kw.arg == "key" for kw in call.keywords)
+
+
+def _pop_key(call: ast.Call) -> ast.keyword:
+    index = next(i for i, kw in enumerate(call.keywords) if kw.arg == "key")
+    return call.keywords.pop(index)
-- 
2.43.0


From 325e6371894f8961f50348a0439884037c2239c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 58/72] fix: rewrite only snake_case names of attributes and
 styles

Names of CSS variables and names with leading or trailing underscores were
changed, the arguments of any function whose result is used as style were
renamed, and renaming could give the same argument to dict() twice.
---
 src/reactpy/_console/rewrite_props.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e66b387..1f934cd 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -1,9 +1,9 @@
 from __future__ import annotations
 
 import ast
+import re
 from collections.abc import Callable
 from copy import copy
-from keyword import kwlist
 from pathlib import Path
 
 import click
@@ -11,9 +11,12 @@ import click
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    is_dict_call,
     rewrite_changed_nodes,
 )
 
+SNAKE_CASE_PATTERN = re.compile(r"[A-Za-z][A-Za-z0-9]*(_[A-Za-z0-9]+)+")
+
 
 @click.command()
 @click.argument("paths", nargs=-1, type=click.Path(exists=True))
@@ -54,12 +57,8 @@ def find_nodes_to_change(tree: ast.AST) -> list[ChangedNode]:
 
 def conv_attr_name(name: str) -> str:
     """Convert snake_case attribute name to camelCase"""
-    # Return early if the value is a Python keyword
-    if name in kwlist:
-        return name
-
-    # Return early if the value is not snake_case
-    if "_" not in name:
+    # Return early if the value is not snake_case (e.g. "--custom_property" or "class_")
+    if not SNAKE_CASE_PATTERN.fullmatch(name):
         return name
 
     # Split the string by underscores
@@ -67,12 +66,12 @@ def conv_attr_name(name: str) -> str:
 
     # Capitalize the first letter of each component except the first one
     # and join them together
-    return components[0] + "".join(x.title() for x in components[1:])
+    return components[0] + "".join(x[0].upper() + x[1:] for x in components[1:])
 
 
 def _construct_prop_item(key: str, value: ast.expr) -> tuple[str, ast.expr]:
     """Construct a new prop item with the converted key and possibly modified value"""
-    if key == "style" and isinstance(value, (ast.Dict, ast.Call)):
+    if key == "style" and (isinstance(value, ast.Dict) or is_dict_call(value)):
         # Create a copy of the value to avoid modifying the original
         new_value = copy(value)
         if _rewrite_props(
@@ -119,11 +118,17 @@ def _rewrite_props(
     else:
         did_change = False
         keywords: list[ast.keyword] = []
+        used_names = {kw.arg for kw in props_node.keywords}
         # Iterate over the keywords in the call
         for kw in props_node.keywords:
             if kw.arg is not None:
                 # Construct the new keyword argument and value
                 kw_arg, kw_value = constructor(kw.arg, kw.value)
+                if kw_arg != kw.arg:
+                    if kw_arg in used_names:
+                        # The same keyword can't be given twice
+                        kw_arg = kw.arg
+                    used_names.add(kw_arg)
                 if kw_arg != kw.arg or kw_value is not kw.value:
                     did_change = True
                 kw = ast.keyword(arg=kw_arg, value=kw_value)
-- 
2.43.0


From 4e3bac2dbb4243bb9881206c9dc64b4cf96659c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 59/72] fix: keep the encoding and line endings of rewritten
 files

Files were always read as UTF-8, written in the locale's encoding and given
the platform's line endings.
---
 src/reactpy/_console/ast_utils.py     | 20 +++++++++++++++++---
 src/reactpy/_console/rewrite_keys.py  |  7 ++-----
 src/reactpy/_console/rewrite_props.py |  8 ++------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 38d9af8..2e16894 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -5,15 +5,15 @@ import ast
 import re
 import sys
 from bisect import bisect_right
-from collections.abc import Callable, Iterator, Sequence
+from collections.abc import Callable, Iterable, Iterator, Sequence
 from dataclasses import dataclass
-from io import StringIO
+from io import BytesIO, StringIO
 from itertools import accumulate
 from pathlib import Path
 from tokenize import COMMENT as COMMENT_TOKEN
 from tokenize import NEWLINE as NEWLINE_TOKEN
 from tokenize import NL as NL_TOKEN
-from tokenize import generate_tokens
+from tokenize import detect_encoding, generate_tokens
 from typing import TypeGuard
 
 import click
@@ -21,6 +21,20 @@ import click
 from reactpy._html import HtmlConstructor
 
 
+def rewrite_files(
+    paths: Iterable[str], generate_rewrite: Callable[[Path, str], str | None]
+) -> None:
+    """Rewrite files and, within directories, Python files under the given paths"""
+    for p in map(Path, paths):
+        for f in [p] if p.is_file() else p.rglob("*.py"):
+            content = f.read_bytes()
+            # decode and encode explicitly in order to keep line endings
+            encoding, _ = detect_encoding(BytesIO(content).readline)
+            result = generate_rewrite(f, content.decode(encoding))
+            if result is not None:
+                f.write_bytes(result.encode(encoding))
+
+
 def rewrite_changed_nodes(
     file: Path,
     source: str,
diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e6261f1..5c6f9bb 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -11,6 +11,7 @@ from reactpy._console.ast_utils import (
     get_element_constructor_name,
     is_element_name,
     rewrite_changed_nodes,
+    rewrite_files,
 )
 
 
@@ -46,11 +47,7 @@ def rewrite_keys(paths: list[str]) -> None:
     comments back in their original location.
     """
 
-    for p in map(Path, paths):
-        for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
-            if result is not None:
-                f.write_text(result)
+    rewrite_files(paths, generate_rewrite)
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index 1f934cd..ec7a9f3 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -13,6 +13,7 @@ from reactpy._console.ast_utils import (
     find_element_constructor_usages,
     is_dict_call,
     rewrite_changed_nodes,
+    rewrite_files,
 )
 
 SNAKE_CASE_PATTERN = re.compile(r"[A-Za-z][A-Za-z0-9]*(_[A-Za-z0-9]+)+")
@@ -22,12 +23,7 @@ SNAKE_CASE_PATTERN = re.compile(r"[A-Za-z][A-Za-z0-9]*(_[A-Za-z0-9]+)+")
 @click.argument("paths", nargs=-1, type=click.Path(exists=True))
 def rewrite_props(paths: list[str]) -> None:
     """Rewrite snake_case props to camelCase within <PATHS>."""
-    for p in map(Path, paths):
-        # Process each file or recursively process each Python file in directories
-        for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
-            if result is not None:
-                f.write_text(result)
+    rewrite_files(paths, generate_rewrite)
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
-- 
2.43.0


From 3da31a2e22d5ac90d260b2f75bff51c111f675e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 60/72] fix: accept event handlers in the attributes of images

---
 src/reactpy/widgets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/widgets.py b/src/reactpy/widgets.py
index ef9c6ef..e4c276a 100644
--- a/src/reactpy/widgets.py
+++ b/src/reactpy/widgets.py
@@ -25,7 +25,7 @@ def image(
     base64_value = b64encode(bytes_value).decode()
     src = f"data:image/{format};base64,{base64_value}"
 
-    return VdomDict(tagName="img", attributes={"src": src, **(attributes or {})})
+    return html.img({"src": src, **(attributes or {})})
 
 
 _Value = TypeVar("_Value")
-- 
2.43.0


From 4075bd7266dd7eb5474d1141287af1d9d340458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:04 +0000
Subject: [PATCH 61/72] fix: run effects again although their previous clean-up
 failed

---
 src/reactpy/core/hooks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index dc4264d..1f8f21b 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -161,7 +161,11 @@ def use_effect(
             if latest_stop.current:
                 latest_stop.current.set()
             latest_stop.current = stop
-            run_effect_cleanup(cleanup_func)
+            try:
+                run_effect_cleanup(cleanup_func)
+            except Exception as error:
+                # this must not prevent the effect from running again
+                logger.error("Error in effect", exc_info=error)
             if stop.is_set():
                 return
 
-- 
2.43.0


From f90549c14ebb533d8c2aefb28d7654633d5944ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:36 +0000
Subject: [PATCH 62/72] fix: publish the wheel for PyScript safely from several
 processes

Processes used the same temporary file, which could publish incomplete wheels
and made other processes fail.
---
 src/reactpy/executors/pyscript/utils.py | 36 ++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index ecaf8c7..1b53a6e 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -14,6 +14,7 @@ import subprocess
 import sys
 import tokenize
 from collections.abc import Callable
+from contextlib import contextmanager
 from importlib import metadata
 from io import StringIO
 from logging import getLogger
@@ -28,7 +29,7 @@ from reactpy.types import VdomDict
 from reactpy.utils import reactpy_to_string
 
 if TYPE_CHECKING:
-    from collections.abc import Sequence
+    from collections.abc import Iterator, Sequence
 
 _logger = getLogger(__name__)
 
@@ -281,7 +282,10 @@ def _normalize_wheel_part(value: str) -> str:
 
 
 def _wheel_is_stale_for_source(wheel_file: Path) -> bool:
-    wheel_mtime = wheel_file.stat().st_mtime
+    try:
+        wheel_mtime = wheel_file.stat().st_mtime
+    except FileNotFoundError:
+        return True  # Another process is replacing it
     repo_root = _reactpy_repo_root()
     watched_paths = [repo_root / "pyproject.toml", repo_root / "src" / "reactpy"]
 
@@ -368,17 +372,30 @@ def _copy_reactpy_wheel_to_static_dir(wheel_file: Path) -> Path:
 
     for existing in static_wheels_dir.glob("reactpy-*.whl"):
         if existing != static_wheel:
-            existing.unlink()
+            existing.unlink(missing_ok=True)
 
     if wheel_file.resolve() == static_wheel.resolve():
         return static_wheel
 
-    temp_wheel = static_wheel.with_suffix(f"{static_wheel.suffix}.tmp")
-    shutil.copy2(wheel_file, temp_wheel)
-    temp_wheel.replace(static_wheel)
+    # Another process may replace the wheel meanwhile, which must not make ours look newer
+    wheel_stat = wheel_file.stat()
+    with _replacing(static_wheel) as temp_wheel:
+        shutil.copy2(wheel_file, temp_wheel)
+        os.utime(temp_wheel, ns=(wheel_stat.st_atime_ns, wheel_stat.st_mtime_ns))
     return static_wheel
 
 
+@contextmanager
+def _replacing(path: Path) -> Iterator[Path]:
+    """Provide a file for this process only, which replaces `path` once it is complete."""
+    temp_path = path.with_name(f"{path.name}.{uuid4().hex}.tmp")
+    try:
+        yield temp_path
+        temp_path.replace(path)
+    finally:
+        temp_path.unlink(missing_ok=True)
+
+
 def _wheel_archive_name(file_path: Path) -> str | None:
     if file_path.is_absolute() or ".." in file_path.parts:
         return None
@@ -402,12 +419,14 @@ def _rebuild_installed_reactpy_wheel() -> Path | None:
     static_wheels_dir.mkdir(parents=True, exist_ok=True)
 
     wheel_path = static_wheels_dir / _installed_wheel_name(files, distribution)
-    temp_wheel_path = wheel_path.with_suffix(".tmp")
 
     record_rows: list[tuple[str, str, str]] = []
     record_name = _installed_wheel_record_name(files)
 
-    with ZipFile(temp_wheel_path, "w", compression=ZIP_DEFLATED) as wheel_zip:
+    with (
+        _replacing(wheel_path) as temp_wheel_path,
+        ZipFile(temp_wheel_path, "w", compression=ZIP_DEFLATED) as wheel_zip,
+    ):
         for file in files:
             file_path = Path(str(file))
             archive_name = _wheel_archive_name(file_path)
@@ -432,7 +451,6 @@ def _rebuild_installed_reactpy_wheel() -> Path | None:
         record_rows.append((record_name, "", ""))
         wheel_zip.writestr(record_name, _record_text(record_rows))
 
-    temp_wheel_path.replace(wheel_path)
     _logger.warning(
         "PyScript will utilize reconstructed local wheel '%s'.", wheel_path.name
     )
-- 
2.43.0


From 5b254fbf7285e0f319f48268606addcbe3de7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 63/72] fix: do not guess the debounce of handlers from
 expressions

---
 src/reactpy/core/_event_inspect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 9f8c346..a7da369 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -257,6 +257,9 @@ def _resolve_debounce_value(
         return None
     if target_instr.argval != event_arg_name:
         return None
+    # The value may also come from elsewhere, e.g. ``event.debounce = value or 200``
+    if getattr(target_instr, "is_jump_target", False):
+        return None
 
     if val_instr.opname in ("LOAD_CONST", "LOAD_SMALL_INT"):
         value = val_instr.argval
-- 
2.43.0


From 406a773ac38384efde2617d0274ba5a3f74b39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 64/72] fix: display numbers given as value of inputs

---
 .../@reactpy/client/src/components.tsx        | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 2e370c4..bcc115f 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -273,7 +273,12 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // Strip the internal key from props so it never reaches the DOM.
   delete (props as Record<string, unknown>)["_reactpy_ack_seq"];
 
-  const [, setValue] = useState(props.value);
+  // The DOM only knows text. Numbers (e.g. of ``<input type="number">``) are
+  // displayed as such, everything else leaves the element uncontrolled.
+  const serverValue =
+    typeof props.value === "number" ? String(props.value) : props.value;
+
+  const [, setValue] = useState(serverValue);
   // Reference to the underlying DOM element. We read its current
   // ``value`` from the reconcile effect to compare against the
   // server's proposed value — reading from Preact state is not
@@ -336,10 +341,10 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // browser manage the DOM value during typing and only override
     // it when it's safe to do so.
     //
-    // Crucially, only write when ``props.value`` is a real string.
+    // Crucially, only write when ``serverValue`` is a real string.
     // Inputs without a ``value`` attribute in their VDOM (e.g.
     // uncontrolled inputs in the user_data and channel_layer tests)
-    // arrive with ``props.value === undefined``; assigning
+    // arrive with ``serverValue === undefined``; assigning
     // ``input.value = undefined`` coerces to the literal string
     // ``"undefined"`` and seeds the field with garbage that the
     // user's first keystroke will then append to (``test`` becomes
@@ -349,14 +354,14 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     if (
       inputRef.current &&
       typeof inputRef.current.value === "string" &&
-      typeof props.value === "string" &&
-      inputRef.current.value !== props.value
+      typeof serverValue === "string" &&
+      inputRef.current.value !== serverValue
     ) {
-      inputRef.current.value = props.value;
+      inputRef.current.value = serverValue;
     }
     syncedValue.current = inputRef.current?.value;
-    setValue(props.value);
-  }, [props.value, serverAckSeq]);
+    setValue(serverValue);
+  }, [serverValue, serverAckSeq]);
 
   for (const [name, prop] of Object.entries(props)) {
     if (typeof prop !== "function") {
-- 
2.43.0


From 57e14e068e265643f2bf833c104b93e590928500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 65/72] fix: select the server's choice again when the options
 change

---
 src/js/packages/@reactpy/client/src/components.tsx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index bcc115f..6208497 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -277,6 +277,9 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // displayed as such, everything else leaves the element uncontrolled.
   const serverValue =
     typeof props.value === "number" ? String(props.value) : props.value;
+  // Which option a drop-down list displays depends on the options it has.
+  const options =
+    model.tagName === "select" ? JSON.stringify(model.children) : undefined;
 
   const [, setValue] = useState(serverValue);
   // Reference to the underlying DOM element. We read its current
@@ -361,7 +364,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     }
     syncedValue.current = inputRef.current?.value;
     setValue(serverValue);
-  }, [serverValue, serverAckSeq]);
+  }, [serverValue, serverAckSeq, options]);
 
   for (const [name, prop] of Object.entries(props)) {
     if (typeof prop !== "function") {
-- 
2.43.0


From 36e15ed114b5c7a6ac1f0bda9aedfebed8bad43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 66/72] fix: let the client tell keyed components apart

---
 src/reactpy/core/layout.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index c763901..078bf87 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -401,6 +401,13 @@ class Layout(BaseLayout):
             await self._unmount_model_states(failed_states)
         finally:
             await life_cycle_hook.affect_component_did_render()
+        if component.key is not None:
+            # Lets the client keep what it displays for this component (e.g. inputs)
+            # together with it when it moves. Keys do not have to be serializable.
+            key = component.key
+            new_state.model.current["attributes"] = {
+                "key": key if isinstance(key, (str, int)) else repr(key)
+            }
 
         return new_state
 
-- 
2.43.0


From 2c91dbe66c79de57543cc2c82024838e17e62f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 67/72] fix: forget effects that failed

---
 src/reactpy/core/_life_cycle_hook.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 38796d2..459a8b8 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -231,13 +231,12 @@ class LifeCycleHook:
         """The layout completed a render"""
         if not self._effect_funcs:
             return
-        # forget effects which have been stopped, but keep those whose error is not
-        # logged yet
-        self._effects = [
-            (stop, task)
-            for stop, task in self._effects
-            if not (task.done() and (task.cancelled() or not task.exception()))
-        ]
+        # forget effects which have been stopped
+        stopped = [task for _, task in self._effects if task.done()]
+        self._effects = [effect for effect in self._effects if not effect[1].done()]
+        for task in stopped:
+            if not task.cancelled() and isinstance(task.exception(), Exception):
+                logger.error("Error in effect", exc_info=task.exception())
         for effect_func in self._effect_funcs:
             stop = Event()
             self._effects.append((stop, create_task(effect_func(stop))))
-- 
2.43.0


From e752f923c3b598154d48890b68f07a5f10053845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:03 +0000
Subject: [PATCH 68/72] fix: never use a module's binding for another import
 source

When a component's import source changed before the effects of its last
rendering had run, and the module of the next source was loaded already, a
superseded and unmounted binding was asked to render the component, in the
place where the binding of the new module displays it.
---
 .../@reactpy/client/src/components.tsx        | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 6208497..a460150 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -519,8 +519,13 @@ function useImportSource(model: ReactPyVdom): {
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
   const mountPoint = useRef<HTMLElement>(null);
   const client = useContext(ClientContext);
-  const [binding, setBinding] = useState<ImportSourceBinding | null>(null);
-  const bindingSource = useRef<string | null>(null);
+  const [bound, setBound] = useState<{
+    binding: ImportSourceBinding;
+    source: string;
+  } | null>(null);
+  // a binding must only be used for the import source it was created from
+  const binding =
+    bound && bound.source === vdomImportSourceJsonString ? bound.binding : null;
 
   useEffect(() => {
     let unmounted = false;
@@ -530,8 +535,12 @@ function useImportSource(model: ReactPyVdom): {
       loadImportSource(vdomImportSource, client).then((bind) => {
         if (!unmounted && mountPoint.current) {
           currentBinding = bind(mountPoint.current);
-          bindingSource.current = vdomImportSourceJsonString;
-          setBinding(currentBinding);
+          setBound(
+            currentBinding && {
+              binding: currentBinding,
+              source: vdomImportSourceJsonString,
+            },
+          );
         }
       });
     }
@@ -546,16 +555,13 @@ function useImportSource(model: ReactPyVdom): {
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding]);
+  }, [client, vdomImportSourceJsonString, setBound]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
     if (!(binding && vdomImportSource)) {
       return;
     }
-    if (bindingSource.current !== vdomImportSourceJsonString) {
-      return;
-    }
     binding.render(model);
     if (vdomImportSource.unmountBeforeUpdate) {
       return binding.unmount;
@@ -564,8 +570,7 @@ function useImportSource(model: ReactPyVdom): {
 
   return {
     mountPoint,
-    isLoaded:
-      binding !== null && bindingSource.current === vdomImportSourceJsonString,
+    isLoaded: binding !== null,
   };
 }
 
-- 
2.43.0


From ea0d9371308aeefd2d4da23217f2a11ca01f3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:54 +0000
Subject: [PATCH 69/72] fix: accept text as the initial content of
 pyscript_component

---
 src/reactpy/executors/pyscript/components.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/components.py b/src/reactpy/executors/pyscript/components.py
index 54940ad..ed4e154 100644
--- a/src/reactpy/executors/pyscript/components.py
+++ b/src/reactpy/executors/pyscript/components.py
@@ -22,7 +22,6 @@ def _pyscript_component(
         raise ValueError("At least one file path must be provided.")
 
     rendered, set_rendered = hooks.use_state(False)
-    initial = string_to_reactpy(initial) if isinstance(initial, str) else initial
 
     if not rendered:
         # FIXME: This is needed to properly re-render PyScript during a WebSocket
-- 
2.43.0


From 0293328496c03a2426fb73b6b05c36c3703d2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:54 +0000
Subject: [PATCH 70/72] fix: forget cached imports whose file a deprecated
 reactpy.web function replaced

---
 src/reactpy/web/module.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/web/module.py b/src/reactpy/web/module.py
index 71c00ca..e921a4b 100644
--- a/src/reactpy/web/module.py
+++ b/src/reactpy/web/module.py
@@ -60,9 +60,10 @@ def module_from_file(
         "module_from_file is deprecated, use component_from_file instead",
         DeprecationWarning,
     )
+    from reactpy.reactjs import _forget_replaced_modules
     from reactpy.reactjs.module import file_to_module
 
-    return file_to_module(
+    module = file_to_module(
         name,
         file,
         fallback=fallback,
@@ -71,6 +72,8 @@ def module_from_file(
         unmount_before_update=unmount_before_update,
         symlink=symlink,
     )
+    _forget_replaced_modules(module)
+    return module
 
 
 def module_from_string(
@@ -85,9 +88,10 @@ def module_from_string(
         "module_from_string is deprecated, use component_from_string instead",
         DeprecationWarning,
     )
+    from reactpy.reactjs import _forget_replaced_modules
     from reactpy.reactjs.module import string_to_module
 
-    return string_to_module(
+    module = string_to_module(
         name,
         content,
         fallback=fallback,
@@ -95,6 +99,8 @@ def module_from_string(
         resolve_imports_depth=resolve_exports_depth,
         unmount_before_update=unmount_before_update,
     )
+    _forget_replaced_modules(module)
+    return module
 
 
 @overload
-- 
2.43.0


From ed5b81498960438d1becefdc97460a07564429f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:44 +0000
Subject: [PATCH 71/72] fix: default import map with the path prefix /

---
 src/reactpy/executors/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 291674a..7145541 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -93,12 +93,12 @@ def server_side_component_html(
 
 
 def default_import_map() -> str:
-    path_prefix = REACTPY_PATH_PREFIX.current.strip("/")
+    path_prefix = REACTPY_PATH_PREFIX.current
     return f"""{{
                 "imports": {{
-                    "react": "/{path_prefix}/static/preact.js",
-                    "react-dom": "/{path_prefix}/static/preact-dom.js",
-                    "react-dom/client": "/{path_prefix}/static/preact-dom.js",
-                    "react/jsx-runtime": "/{path_prefix}/static/preact-jsx-runtime.js"
+                    "react": "{path_prefix}static/preact.js",
+                    "react-dom": "{path_prefix}static/preact-dom.js",
+                    "react-dom/client": "{path_prefix}static/preact-dom.js",
+                    "react/jsx-runtime": "{path_prefix}static/preact-jsx-runtime.js"
                 }}
             }}""".replace("\n", "").replace(" ", "")
-- 
2.43.0


From bbd24d58035e81f671aa0c1c194bafc89c90baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:44 +0000
Subject: [PATCH 72/72] fix: escape the class of components in templates

---
 src/reactpy/executors/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 7145541..9d67050 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Iterable
+from html import escape
 from typing import Any
 
 from reactpy._option import Option
@@ -63,7 +64,7 @@ def server_side_component_html(
     element_id: str, class_: str, component_path: str
 ) -> str:
     return (
-        f'<div id="{element_id}" class="{class_}"></div>'
+        f'<div id="{element_id}" class="{escape(class_)}"></div>'
         "<script>"
         'if (!document.querySelector("#reactpy-importmap")) {'
         "   console.debug("
-- 
2.43.0

