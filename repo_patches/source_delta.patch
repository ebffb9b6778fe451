From e088a055487ca929b036f7591499fd06043d7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 01/97] fix: deliver concurrent layout updates in the order
 they were rendered

asyncio.wait returns an unordered set, so when several renders had finished
before the consumer asked for the next update, an older update could be handed
out after a newer one and the client was left displaying stale content.
---
 src/reactpy/core/layout.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 18253aa..f3b7c91 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -74,6 +74,10 @@ class Layout(BaseLayout):
             _LifeCycleStateId, Task[LayoutUpdateMessage]
         ] = {}
         self._render_tasks_ready: Semaphore = Semaphore(0)
+        # The order in which render tasks finished. Updates must be handed out in this
+        # order since a later one may replace (or be relative to) an earlier one.
+        self._render_task_order: dict[Task[LayoutUpdateMessage], int] = {}
+        self._render_count = 0
         # Maps a running render task back to the component it belongs to.
         # Used by the stale-render detection in `_parallel_render` to drop
         # out-of-order completions when async rendering is enabled and a
@@ -123,6 +127,7 @@ class Layout(BaseLayout):
         del self._rendering_queue
         del self._render_tasks_by_id
         del self._render_task_to_lcs_id
+        del self._render_task_order
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
@@ -218,14 +223,27 @@ class Layout(BaseLayout):
                 continue
 
             done, _ = await wait(self._render_tasks, return_when=FIRST_COMPLETED)
-            update_task: Task[LayoutUpdateMessage] = done.pop()
+            update_task: Task[LayoutUpdateMessage] = min(
+                done, key=lambda task: self._render_task_order.get(task, -1)
+            )
             self._render_tasks.discard(update_task)
+            self._render_task_order.pop(update_task, None)
 
             try:
                 return update_task.result()
             except CancelledError:  # nocov
                 continue
 
+    async def _create_ordered_layout_update(
+        self, old_state: _ModelState
+    ) -> LayoutUpdateMessage:
+        try:
+            return await self._create_layout_update(old_state)
+        finally:
+            self._render_count += 1
+            task = cast("Task[LayoutUpdateMessage]", current_task())
+            self._render_task_order[task] = self._render_count
+
     async def _create_layout_update(
         self, old_state: _ModelState
     ) -> LayoutUpdateMessage:
@@ -589,7 +607,7 @@ class Layout(BaseLayout):
                 f"{lcs_id!r} - component already unmounted"
             )
         else:
-            task = create_task(self._create_layout_update(model_state))
+            task = create_task(self._create_ordered_layout_update(model_state))
             self._render_task_to_lcs_id[task] = lcs_id
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
-- 
2.43.0


From 0c1c3907ae399457df3490a12fdb11bf35f69519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 02/97] fix: do not interleave renders of components related by
 ancestry

A render replaces the model states of its whole subtree. When a component and
one of its ancestors were scheduled together, the ancestor's render overlapped
with (or cancelled half way) the descendant's, which raised KeyErrors, blanked
subtrees and leaked effects and event handlers.
---
 src/reactpy/core/layout.py | 43 +++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index f3b7c91..4b065ab 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -234,15 +234,48 @@ class Layout(BaseLayout):
             except CancelledError:  # nocov
                 continue
 
-    async def _create_ordered_layout_update(
-        self, old_state: _ModelState
+    async def _create_isolated_layout_update(
+        self, lcs_id: _LifeCycleStateId
     ) -> LayoutUpdateMessage:
+        """Render a component while none of its ancestors or descendants are rendering
+
+        Renders of unrelated components may be interleaved, but a render replaces the
+        model states of its whole subtree so related ones must happen one at a time.
+        """
+        task = cast("Task[LayoutUpdateMessage]", current_task())
         try:
-            return await self._create_layout_update(old_state)
+            while True:
+                model_state = self._model_states_by_life_cycle_state_id.get(lcs_id)
+                if model_state is None:
+                    # the component was unmounted while waiting for its turn
+                    raise CancelledError()
+                related = self._related_renders_before(task, model_state)
+                if not related:
+                    return await self._create_layout_update(model_state)
+                await wait(related, return_when=FIRST_COMPLETED)
         finally:
             self._render_count += 1
-            task = cast("Task[LayoutUpdateMessage]", current_task())
             self._render_task_order[task] = self._render_count
+            self._render_task_to_lcs_id.pop(task, None)
+            if self._render_tasks_by_id.get(lcs_id) is task:
+                del self._render_tasks_by_id[lcs_id]
+
+    def _related_renders_before(
+        self, task: Task[LayoutUpdateMessage], model_state: _ModelState
+    ) -> list[Task[LayoutUpdateMessage]]:
+        """Earlier renders of the component, its ancestors, or its descendants"""
+        related: list[Task[LayoutUpdateMessage]] = []
+        path = f"{model_state.patch_path}/"
+        for other_task, other_id in self._render_task_to_lcs_id.items():
+            if other_task is task:
+                break
+            other_state = self._model_states_by_life_cycle_state_id.get(other_id)
+            if other_state is None or other_task.done():
+                continue
+            other_path = f"{other_state.patch_path}/"
+            if path.startswith(other_path) or other_path.startswith(path):
+                related.append(other_task)
+        return related
 
     async def _create_layout_update(
         self, old_state: _ModelState
@@ -607,7 +640,7 @@ class Layout(BaseLayout):
                 f"{lcs_id!r} - component already unmounted"
             )
         else:
-            task = create_task(self._create_ordered_layout_update(model_state))
+            task = create_task(self._create_isolated_layout_update(lcs_id))
             self._render_task_to_lcs_id[task] = lcs_id
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
-- 
2.43.0


From 9d73f148004489d1f0c6557d06f1308b5b21cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 03/97] fix: unmount the children of a component that fails to
 render

When a component raised, the children it displayed before (and those rendered
before the failure) were dropped from the tree without being unmounted: their
effects were never cleaned up, not even when the layout was closed, and their
event handlers stayed registered.
---
 src/reactpy/core/_life_cycle_hook.py |  2 ++
 src/reactpy/core/layout.py           | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index cf77742..20fd211 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -241,6 +241,8 @@ class LifeCycleHook:
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
+        # effects which have not been started yet would never be stopped
+        self._effect_funcs.clear()
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 4b065ab..292e4b5 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -391,6 +391,12 @@ class Layout(BaseLayout):
             )
         except Exception as error:
             logger.exception(f"Failed to render {component}")
+            # none of the children, old or partially rendered, are displayed anymore
+            children = list(new_state.children_by_key.values())
+            if old_state is not None:
+                children.extend(old_state.children_by_key.values())
+            new_state.children_by_key.clear()
+            await self._unmount_model_states(children)
             new_state.model.current = {
                 "tagName": "",
                 "error": (
@@ -420,6 +426,9 @@ class Layout(BaseLayout):
         else:
             new_state = _update_element_model_state(old_state, parent, index)
 
+        # attach now so this gets unmounted in case rendering what's inside fails
+        parent.children_by_key[key] = new_state
+
         try:
             new_state.model.current = {"tagName": raw_model["tagName"]}
         except Exception as e:  # nocov
@@ -619,12 +628,14 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             for target in model_state.targets_by_event.values():
-                del self._event_handlers[target]
+                self._event_handlers.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-                del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
-                await life_cycle_state.hook.affect_component_will_unmount()
+                if self._model_states_by_life_cycle_state_id.pop(
+                    life_cycle_state.id, None
+                ):
+                    await life_cycle_state.hook.affect_component_will_unmount()
 
             to_unmount.extend(model_state.children_by_key.values())
 
-- 
2.43.0


From b6a542128d83c18cce53e788996f23a339707396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 04/97] fix: unmount everything when a layout is closed during
 a render

Closing a layout interrupts the renders in progress. Components that the
interrupted render had not reached yet were no longer part of the tree, so they
were never unmounted and their effects kept running after the close.
---
 src/reactpy/core/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 292e4b5..593a455 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -118,6 +118,10 @@ class Layout(BaseLayout):
                 await t
 
         await self._unmount_model_states([root_model_state])
+        # a render that was interrupted leaves states which aren't part of the tree
+        await self._unmount_model_states(
+            list(self._model_states_by_life_cycle_state_id.values())
+        )
         await self._rendering_queue.close()
 
         # delete attributes here to avoid access after exiting context manager
-- 
2.43.0


From d8b6a2af727f5ede94c8b5b9e6771c4d6ca5c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 05/97] fix: recompute a memo whose last computation failed

The new dependencies were recorded before the function ran. When it raised, the
next render with the same dependencies returned the value computed for older
ones (or skipped an effect which was never scheduled).
---
 src/reactpy/core/hooks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5aacbf5..e97ba16 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -508,10 +508,10 @@ def use_memo(
     if memo.empty():
         # we need to initialize on the first run
         changed = True
-        memo.deps = () if dependencies is None else dependencies
+        deps = () if dependencies is None else dependencies
     elif dependencies is None:
         changed = True
-        memo.deps = ()
+        deps = ()
     elif (
         len(memo.deps) != len(dependencies)
         # if deps are same length check identity for each item
@@ -520,8 +520,8 @@ def use_memo(
             for current, new in zip(memo.deps, dependencies, strict=False)
         )
     ):
-        memo.deps = dependencies
         changed = True
+        deps = dependencies
     else:
         changed = False
 
@@ -529,6 +529,8 @@ def use_memo(
 
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
+            # the value is only known to be that of these dependencies from here on
+            memo.deps = deps
             return current_value
 
     else:
-- 
2.43.0


From 1203b88b9cbe8304dfecae0202651a12bf0a4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 06/97] fix: let a component recover when its first render is
 cut short by an error

Hooks that the failed first render had not reached were never initialized, so
every later render of the component failed with an IndexError.
---
 src/reactpy/core/_life_cycle_hook.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 20fd211..b9101d0 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -139,7 +139,6 @@ class LifeCycleHook:
         "_effect_stops",
         "_effect_tasks",
         "_render_access",
-        "_rendered_atleast_once",
         "_schedule_render_callback",
         "_scheduled_render",
         "_state",
@@ -155,7 +154,6 @@ class LifeCycleHook:
         self._context_providers: dict[Context[Any], ContextProvider[Any]] = {}
         self._schedule_render_callback = schedule_render
         self._scheduled_render = False
-        self._rendered_atleast_once = False
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
@@ -177,16 +175,16 @@ class LifeCycleHook:
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
 
-        If this hook has not yet rendered, the state is appended to the state tuple.
-        Otherwise, the state is retrieved from the tuple. This allows state to be
-        preserved across renders.
+        If no render has reached this piece of state yet, it is appended to the state
+        tuple. Otherwise, the state is retrieved from the tuple. This allows state to be
+        preserved across renders, even if the first ones were cut short by an error.
         """
-        if not self._rendered_atleast_once:
-            # since we're not initialized yet we're just appending state
+        if self._current_state_index >= len(self._state):
+            # this piece of state isn't initialized yet so we're just appending it
             result = function()
             self._state.append(result)
         else:
-            # once finalized we iterate over each succesively used piece of state
+            # otherwise we iterate over each succesively used piece of state
             result = self._state[self._current_state_index]
         self._current_state_index += 1
         return result
@@ -227,7 +225,6 @@ class LifeCycleHook:
     async def affect_component_did_render(self) -> None:
         """The component completed a render"""
         self.unset_current()
-        self._rendered_atleast_once = True
         self._current_state_index = 0
         self._render_access.release()
         del self.component
-- 
2.43.0


From dd3c119e4c2ebdd68c66b2a4fb9ac9f218aae29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 07/97] fix: keep an asynchronous effect's runs and clean-ups
 in order

A superseded run could overlap with, or start after, a newer one, and the
clean-up of a run that completed as it was superseded was never called.
---
 src/reactpy/core/hooks.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index e97ba16..28d30a5 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -228,17 +228,24 @@ def use_async_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
-    pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
+    pending_task: Ref[asyncio.Task[None] | None] = use_ref(None)
+    latest_func: Ref[_AsyncEffectFunc | None] = use_ref(None)
 
     def decorator(func: _AsyncEffectFunc) -> None:
+        async def run_effect() -> None:
+            cleanup_func.current = await func()
+
         async def effect(stop: asyncio.Event) -> None:
+            latest_func.current = func
+
             # Make sure we always clean up the previous effect's resources
-            if pending_task.current:
+            while pending_task.current:
                 previous_task = pending_task.current
                 if not shield:
                     previous_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await previous_task
+                await asyncio.wait([previous_task])
+                if latest_func.current is not func:
+                    return  # a newer effect took the place of this one while it waited
                 if pending_task.current is previous_task:
                     pending_task.current = None
 
@@ -247,7 +254,7 @@ def use_async_effect(
             # Execute the effect and store the clean-up function.
             # We run this in a task so it can be cancelled if the stop signal
             # is set before the effect completes.
-            task = asyncio.create_task(func())
+            task = asyncio.create_task(run_effect())
             pending_task.current = task
 
             # Wait for either the effect to complete or the stop signal
@@ -257,15 +264,16 @@ def use_async_effect(
                 return_when=asyncio.FIRST_COMPLETED,
             )
 
-            # If the effect completed first, store the cleanup function
+            # If the effect completed first, wait for the stop signal
             if task in done:
-                pending_task.current = None
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = task.result()
+                if pending_task.current is task:
+                    pending_task.current = None
                 # Cancel the stop task since we don't need it anymore
                 stop_task.cancel()
                 with contextlib.suppress(asyncio.CancelledError):
                     await stop_task
+                with contextlib.suppress(asyncio.CancelledError):
+                    task.result()
                 # Now wait for the stop signal to run cleanup
                 await stop.wait()
             # Stop signal came first - cancel the effect task
@@ -274,7 +282,7 @@ def use_async_effect(
                 if not shield:
                     task.cancel()
                 with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = await task
+                    await task
                 if pending_task.current is task:
                     pending_task.current = None
 
-- 
2.43.0


From 38bb963fef127302d87f08d9f14c01206d302a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 08/97] fix: wait for every effect of an unmounting component

An effect that failed, or cancellation of the render that unmounts the component,
kept the remaining effects from being awaited and cleaned up.
---
 src/reactpy/core/_life_cycle_hook.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index b9101d0..a7ba981 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Event, Task, create_task, gather
+from asyncio import CancelledError, Event, Task, create_task, wait
 from collections.abc import Callable
 from contextvars import ContextVar, Token
 from typing import Any, Protocol, TypeVar
@@ -243,12 +243,19 @@ class LifeCycleHook:
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
+        tasks, self._effect_tasks = self._effect_tasks, []
+        if not tasks:
+            return
         try:
-            await gather(*self._effect_tasks)
-        except Exception:
-            logger.exception("Error in effect")
+            await wait(tasks)
+        except CancelledError:
+            # the effects must get the chance to clean up no matter what
+            await wait(tasks)
+            raise
         finally:
-            self._effect_tasks.clear()
+            for task in tasks:
+                if task.done() and not task.cancelled() and task.exception():
+                    logger.error("Error in effect", exc_info=task.exception())
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
-- 
2.43.0


From 1d19882ae5acbcf7922e71b47892916bd7a4a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 09/97] fix: let nothing render anymore once a layout starts to
 close

Effects that scheduled a render while the layout was being closed made it fail
with 'Set changed size during iteration' or left behind mounted components.
---
 src/reactpy/core/layout.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 593a455..7eaa1e8 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -66,6 +66,7 @@ class Layout(BaseLayout):
 
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
+        self._closed = False
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
@@ -107,15 +108,14 @@ class Layout(BaseLayout):
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
 
-        for t in self._render_tasks:
-            t.cancel()
-            with suppress(CancelledError):
-                await t
+        # effects and event handlers may not schedule any more renders
+        self._closed = True
 
-        for t in self._event_processing_tasks.values():
+        tasks = [*self._render_tasks, *self._event_processing_tasks.values()]
+        for t in tasks:
             t.cancel()
-            with suppress(CancelledError):
-                await t
+        if tasks:
+            await wait(tasks)
 
         await self._unmount_model_states([root_model_state])
         # a render that was interrupted leaves states which aren't part of the tree
@@ -644,6 +644,8 @@ class Layout(BaseLayout):
             to_unmount.extend(model_state.children_by_key.values())
 
     def _schedule_render_task(self, lcs_id: _LifeCycleStateId) -> None:
+        if self._closed:
+            return None
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
-- 
2.43.0


From f9f330d5a396ff10a7f722da055679b6cc61d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 10/97] fix: give every element its own event targets

The targets of siblings whose keys were an integer and the same number as a string,
or that contained a slash, were equal, so events reached the wrong handler.
---
 src/reactpy/core/layout.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 7eaa1e8..1ad121c 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -699,7 +699,7 @@ def _make_component_model_state(
         children_by_key={},
         targets_by_event={},
         life_cycle_state=_make_life_cycle_state(component, schedule_render),
-        key_path=f"{parent.key_path}/{key}" if parent else "",
+        key_path=f"{parent.key_path}/{key!r}" if parent else "",
     )
 
 
@@ -743,7 +743,7 @@ def _update_component_model_state(
             if old_model_state.is_component_state
             else _make_life_cycle_state(new_component, schedule_render)
         ),
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=f"{new_parent.key_path}/{old_model_state.key!r}",
     )
 
 
@@ -760,7 +760,7 @@ def _make_element_model_state(
         patch_path=f"{parent.patch_path}/children/{index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{parent.key_path}/{key}",
+        key_path=f"{parent.key_path}/{key!r}",
     )
 
 
@@ -777,7 +777,7 @@ def _update_element_model_state(
         patch_path=f"{new_parent.patch_path}/children/{new_index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=f"{new_parent.key_path}/{old_model_state.key!r}",
     )
 
 
-- 
2.43.0


From d609f8df2c9a5d6ac2c16b4ef484ce7d5023f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 11/97] fix: acknowledge only events that a render can account
 for

An event received while a component was rendering was acknowledged by the outcome
of that render, so clients replaced what was typed with an outdated value.
---
 src/reactpy/core/layout.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 1ad121c..7c88bf4 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -300,6 +300,7 @@ class Layout(BaseLayout):
                     old_state.index,
                     old_state.key,
                     component,
+                    is_top=True,
                 )
 
             if parent is not None:
@@ -334,6 +335,7 @@ class Layout(BaseLayout):
         index: int,
         key: Any,
         component: Component,
+        is_top: bool = False,
     ) -> _ModelState:
         if old_state is None:
             new_state = _make_component_model_state(
@@ -384,6 +386,9 @@ class Layout(BaseLayout):
 
         await life_cycle_hook.affect_component_will_render(component)
         exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)
+        if is_top:
+            # the model doesn't account for events that are received from now on
+            new_state.event_seqs = self._last_event_seq_by_target.copy()
         try:
             raw_model = component.render()
             # wrap the model in a fragment (i.e. tagName="") to ensure components have
@@ -503,9 +508,10 @@ class Layout(BaseLayout):
         the latest keystrokes.
 
         For each event handler bound to this element, we look up the
-        highest client-assigned sequence number the server has received
-        for that target and, if any was recorded, attach the maximum
-        across handlers as the element's ``ackSeq``.
+        highest client-assigned sequence number the server had received
+        for that target when the element's render began and, if any was
+        recorded, attach the maximum across handlers as the element's
+        ``ackSeq``.
         """
         if tag_name not in {"input", "select", "textarea"}:
             return
@@ -514,7 +520,7 @@ class Layout(BaseLayout):
             return
         max_ack: int | None = None
         for target in targets:
-            ack = self._last_event_seq_by_target.get(target)
+            ack = new_state.event_seqs.get(target)
             if ack is None:
                 continue
             if max_ack is None or ack > max_ack:
@@ -789,6 +795,7 @@ class _ModelState:
         "_parent_ref",
         "_render_semaphore",
         "children_by_key",
+        "event_seqs",
         "index",
         "key",
         "key_path",
@@ -831,6 +838,9 @@ class _ModelState:
         self.key_path = key_path
         """A slash-delimited path using element keys"""
 
+        self.event_seqs: dict[str, int] = {} if parent is None else parent.event_seqs
+        """The last event sequence numbers (by target) that the model accounts for"""
+
         # === Conditionally Available Attributes ===
         # It's easier to conditionally assign than to force a null check on every usage
 
-- 
2.43.0


From 20852090a578eea36d36fd3fa765ac62a471eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 12/97] fix: keep handling events after a handler was cancelled

A CancelledError that an event handler raised itself ended the processing of its
target, so all further events on that element were lost.
---
 src/reactpy/core/layout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 7c88bf4..606ab7f 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -190,6 +190,11 @@ class Layout(BaseLayout):
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
                     ]
                     await handler.function(data)
+                except CancelledError:
+                    if cast("Task[None]", current_task()).cancelling():
+                        raise
+                    # it's not this task but something in the handler that's cancelled
+                    logger.exception(f"Failed to execute event handler {handler}")
                 except Exception:
                     logger.exception(f"Failed to execute event handler {handler}")
             else:
-- 
2.43.0


From 7537d7159ad7af2330abfd7350d7bcbe6028ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 13/97] fix: render when state is set from another thread

Without a running event loop no task could be created, and the state setter
of the component was disabled if the render began before it returned.
---
 src/reactpy/core/_life_cycle_hook.py | 5 +++--
 src/reactpy/core/layout.py           | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index a7ba981..ef60925 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -164,13 +164,14 @@ class LifeCycleHook:
     def schedule_render(self) -> None:
         if self._scheduled_render:
             return None
+        # set this first since the render could begin in another thread right away
+        self._scheduled_render = True
         try:
             self._schedule_render_callback()
         except Exception:
+            self._scheduled_render = False
             msg = f"Failed to schedule render via {self._schedule_render_callback}"
             logger.exception(msg)
-        else:
-            self._scheduled_render = True
 
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 606ab7f..27c751d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -15,6 +15,7 @@ from collections import Counter
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
+from threading import get_ident
 from types import TracebackType
 from typing import (
     Any,
@@ -67,6 +68,8 @@ class Layout(BaseLayout):
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
         self._closed = False
+        self._loop = get_running_loop()
+        self._thread_id = get_ident()
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
@@ -657,6 +660,10 @@ class Layout(BaseLayout):
     def _schedule_render_task(self, lcs_id: _LifeCycleStateId) -> None:
         if self._closed:
             return None
+        if get_ident() != self._thread_id:
+            # state may be set from other threads
+            self._loop.call_soon_threadsafe(self._schedule_render_task, lcs_id)
+            return None
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
-- 
2.43.0


From 04a96eeb4642782b3ac1655cf8d2e06d3d83a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 14/97] fix: keep a static event target that moves to another
 element

Removing the element that had the target before also removed the new element's handler.
---
 src/reactpy/core/layout.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 27c751d..e53d460 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -71,6 +71,7 @@ class Layout(BaseLayout):
         self._loop = get_running_loop()
         self._thread_id = get_ident()
         self._event_handlers: EventHandlerDict = {}
+        self._event_handler_owners: dict[str, _ModelState] = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
@@ -129,6 +130,7 @@ class Layout(BaseLayout):
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
+        del self._event_handler_owners
         del self._event_queues
         del self._event_processing_tasks
         del self._rendering_queue
@@ -487,8 +489,9 @@ class Layout(BaseLayout):
             return None
 
         for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            old_target = old_state.targets_by_event[old_event]
-            del self._event_handlers[old_target]
+            self._remove_event_handler(
+                old_state, old_state.targets_by_event[old_event]
+            )
 
         if not handlers_by_event:
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
@@ -503,11 +506,18 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
         return None
 
+    def _remove_event_handler(self, model_state: _ModelState, target: str) -> None:
+        # a handler with a static target may already belong to another element
+        if self._event_handler_owners.get(target) is model_state:
+            del self._event_handlers[target]
+            del self._event_handler_owners[target]
+
     def _inject_event_ack_seq(
         self, new_state: _ModelState, tag_name: str | None
     ) -> None:
@@ -560,6 +570,7 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         return None
@@ -646,7 +657,7 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             for target in model_state.targets_by_event.values():
-                self._event_handlers.pop(target, None)
+                self._remove_event_handler(model_state, target)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From af7a0258fd1967ca9f5138b6ff47540b61e7ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 15/97] fix: acknowledge an event only once its handler is
 about to run

An event still waiting for its handler to reappear was acknowledged already.
---
 src/reactpy/core/layout.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index e53d460..fe9f5ea 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -169,16 +169,6 @@ class Layout(BaseLayout):
         while True:
             event = await queue.get()
 
-            # Record the client-assigned event sequence number (if any)
-            # so we can echo it back as ``ackSeq`` on the originating
-            # element. The client uses this to decide whether the
-            # server has caught up to the latest keystrokes.
-            seq = event.get("seq")
-            if isinstance(seq, int) and seq >= 0:
-                prev = self._last_event_seq_by_target.get(target, -1)
-                if seq > prev:
-                    self._last_event_seq_by_target[target] = seq
-
             # Retry a few times to handle potential re-render race conditions where
             # the handler is temporarily removed and then re-added.
             handler = self._event_handlers.get(target)
@@ -189,6 +179,16 @@ class Layout(BaseLayout):
                     if handler is not None:
                         break
 
+            # Record the client-assigned event sequence number (if any)
+            # so we can echo it back as ``ackSeq`` on the originating
+            # element. The client uses this to decide whether the
+            # server has caught up to the latest keystrokes.
+            seq = event.get("seq")
+            if isinstance(seq, int) and seq >= 0:
+                prev = self._last_event_seq_by_target.get(target, -1)
+                if seq > prev:
+                    self._last_event_seq_by_target[target] = seq
+
             if handler is not None:
                 try:
                     data = [
-- 
2.43.0


From 59beb247b0397df16b05099d767788558c1cccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 16/97] fix: environment variable of a child option is not
 overridden by its parent

---
 src/reactpy/_option.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 9e57c22..d69f38e 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -28,9 +28,6 @@ class Option(Generic[_O]):
         self._validator = validator
         self._subscribers: list[Callable[[_O], None]] = []
 
-        if name in os.environ:
-            self._current = validator(os.environ[name])
-
         if parent is not None:
             if not (parent.mutable and self.mutable):
                 raise TypeError("Parent and child options must be mutable")
@@ -41,6 +38,10 @@ class Option(Generic[_O]):
         else:
             raise TypeError("Must specify either a default or a parent option")
 
+        # the environment takes precedence over the parent's current value
+        if name in os.environ:
+            self._current = validator(os.environ[name])
+
         logger.debug(f"{self._name}={self.current}")
 
     @property
-- 
2.43.0


From d1fb02f68807a0a5a5913603750e335ea3e4ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 17/97] fix: set_default with the default value itself raises
 no AttributeError

---
 src/reactpy/_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index d69f38e..77fca12 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -117,7 +117,7 @@ class Option(Generic[_O]):
         """
         if not self.is_set():
             self.set_current(new)
-        return self._current
+        return self.current
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-- 
2.43.0


From 72fe7f97b5bb6109f7392f024e31369ae89c7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 18/97] fix: events that wait for a full queue are not
 overtaken by later ones

---
 src/reactpy/core/layout.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index fe9f5ea..57bb396 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from asyncio import (
     FIRST_COMPLETED,
     CancelledError,
+    Lock,
     Queue,
     Task,
     create_task,
@@ -73,6 +74,7 @@ class Layout(BaseLayout):
         self._event_handlers: EventHandlerDict = {}
         self._event_handler_owners: dict[str, _ModelState] = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
+        self._event_delivery_locks: dict[str, Lock] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
         self._render_tasks_by_id: dict[
@@ -132,6 +134,7 @@ class Layout(BaseLayout):
         del self._event_handlers
         del self._event_handler_owners
         del self._event_queues
+        del self._event_delivery_locks
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
@@ -153,11 +156,14 @@ class Layout(BaseLayout):
                 "Queue[LayoutEventMessage | dict[str, Any]]",
                 Queue(REACTPY_MAX_QUEUE_SIZE.current),
             )
+            self._event_delivery_locks[target] = Lock()
             self._event_processing_tasks[target] = create_task(
                 self._process_event_queue(target, self._event_queues[target])
             )
 
-        await self._event_queues[target].put(event)
+        # events which wait for a full queue must not be overtaken by later ones
+        async with self._event_delivery_locks[target]:
+            await self._event_queues[target].put(event)
 
         # In test environments, we yield to the event loop to let the processing tasks run.
         if REACTPY_DEBUG.current:
-- 
2.43.0


From 40d8520c37165d3c808e53a7916cf2e5d3dc3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 19/97] fix: event handlers may be callable objects, methods
 and nested partials

The inspection for preventDefault, stopPropagation and debounce raised an
AttributeError for callables without __code__ and took the first parameter
for the event even if it was already bound.
---
 src/reactpy/core/_event_inspect.py | 20 +++++++++++-----
 src/reactpy/core/events.py         | 37 +++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index e9adc8c..3d0db49 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -6,7 +6,7 @@ Implementing this syntax necessitates inspecting the bytecode of event handler f
 from __future__ import annotations
 
 import dis
-from collections.abc import Callable, Iterable
+from collections.abc import Callable, Iterable, Mapping
 from types import CodeType
 from typing import Any
 
@@ -19,7 +19,11 @@ _LOAD_FAST_BORROW_PAIR_SIZE = 2
 _STORE_ATTR_VALUE_OFFSET = 2
 
 
-def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
+def inspect_event_handler(
+    func: Callable,
+    event_arg_index: int = 0,
+    bound_kwargs: Mapping[str, Any] | None = None,
+) -> tuple[bool, bool, int | None]:
     """Detect ``preventDefault``/``stopPropagation``/``debounce`` usage.
 
     Walks the bytecode of ``func`` looking for the patterns:
@@ -40,15 +44,19 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     be resolved from the function alone, so users must pass
     ``debounce=...`` explicitly in that case.
 
+    The event is the positional argument at ``event_arg_index`` and ``bound_kwargs``
+    are keyword arguments ``func`` is always called with. Callables without bytecode
+    (for example builtins) use none of the patterns.
+
     Returns ``(prevent_default, stop_propagation, debounce)``.
     """
-    code = func.__code__
+    code = getattr(func, "__code__", None)
 
     prevent_default = False
     stop_propagation = False
     debounce: int | None = None
 
-    if code.co_argcount <= 0:
+    if not isinstance(code, CodeType) or code.co_argcount <= event_arg_index:
         return prevent_default, stop_propagation, debounce
 
     names = code.co_names
@@ -59,9 +67,9 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     if not (check_prevent_default or check_stop_propagation or check_debounce):
         return prevent_default, stop_propagation, debounce
 
-    event_arg_name = code.co_varnames[0]
+    event_arg_name = code.co_varnames[event_arg_index]
     instructions = list(dis.get_instructions(code))
-    arg_defaults = _function_arg_defaults(func)
+    arg_defaults = {**_function_arg_defaults(func), **(bound_kwargs or {})}
     closure_by_name = _closure_lookup(func)
     constant_ints_by_name = _constant_ints_by_name(code)
 
diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 3828e2a..94184d9 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -126,15 +126,8 @@ class EventHandler(BaseEventHandler):
 
         # Check if our `preventDefault` or `stopPropagation` methods were called
         # by inspecting the function's bytecode
-        func_to_inspect = cast(Any, function)
-        while hasattr(func_to_inspect, "__wrapped__"):
-            func_to_inspect = func_to_inspect.__wrapped__
-
-        if isinstance(func_to_inspect, partial):
-            func_to_inspect = func_to_inspect.func
-
         found_prevent_default, found_stop_propagation, found_debounce = (
-            inspect_event_handler(func_to_inspect)
+            inspect_event_handler(*_unwrap_event_handler_function(function))
         )
 
         if found_prevent_default:
@@ -174,6 +167,34 @@ class EventHandler(BaseEventHandler):
         return f"{type(self).__name__}({items})"
 
 
+def _unwrap_event_handler_function(
+    function: Any,
+) -> tuple[Any, int, dict[str, Any]]:
+    """Find the function behind any wrappers, partials, methods and callable objects
+
+    Returns the function, the number of its positional arguments which precede the
+    event, and the keyword arguments it will be called with.
+    """
+    bound_args = 0
+    bound_kwargs: dict[str, Any] = {}
+    while True:
+        if inspect.ismethod(function):
+            bound_args += 1
+            function = function.__func__
+        elif hasattr(function, "__wrapped__"):
+            function = function.__wrapped__
+        elif isinstance(function, partial):
+            bound_args += len(function.args)
+            bound_kwargs = {**function.keywords, **bound_kwargs}
+            function = function.func
+        elif not hasattr(function, "__code__") and inspect.isfunction(
+            getattr(type(function), "__call__", None)  # noqa: B004
+        ):
+            function = function.__call__
+        else:
+            return function, bound_args, bound_kwargs
+
+
 def to_event_handler_function(
     function: Callable[..., Any],
     positional_args: bool = True,
-- 
2.43.0


From 5922de85c4b84a01979afd5cf77b47380730a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 20/97] fix: event flags are found in closures' and in large
 event handlers

---
 src/reactpy/core/_event_inspect.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 3d0db49..4da78dc 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -68,7 +68,8 @@ def inspect_event_handler(
         return prevent_default, stop_propagation, debounce
 
     event_arg_name = code.co_varnames[event_arg_index]
-    instructions = list(dis.get_instructions(code))
+    # ``EXTENDED_ARG`` is a mere prefix of the instruction which follows it
+    instructions = [i for i in dis.get_instructions(code) if i.opname != "EXTENDED_ARG"]
     arg_defaults = {**_function_arg_defaults(func), **(bound_kwargs or {})}
     closure_by_name = _closure_lookup(func)
     constant_ints_by_name = _constant_ints_by_name(code)
@@ -82,7 +83,8 @@ def inspect_event_handler(
 
     for index, instr in enumerate(instructions):
         if (
-            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW")
+            # The event is in a cell (``LOAD_DEREF``) if an inner function uses it
+            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW", "LOAD_DEREF")
             and instr.argval == event_arg_name
         ):
             last_was_event = True
@@ -247,6 +249,7 @@ def _resolve_debounce_value(
     if target_instr.opname not in (
         "LOAD_FAST",
         "LOAD_FAST_BORROW",
+        "LOAD_DEREF",
         # CPython 3.13+ may fuse two ``LOAD_FAST`` instructions into
         # ``LOAD_FAST_LOAD_FAST`` whose argval is ``(value_name, target_name)``.
         # The detector above already covers this case for debounce values,
-- 
2.43.0


From 2f246911ecc235f2bf6cd07e4b95b10ceedfe144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 21/97] fix: an unresolvable debounce is not replaced by an
 earlier literal or default

A later assignment of a local variable, or to the parameter whose default was
used, left the handler with a number that may not be the real one.
---
 src/reactpy/core/_event_inspect.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 4da78dc..337731d 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -72,6 +72,11 @@ def inspect_event_handler(
     instructions = [i for i in dis.get_instructions(code) if i.opname != "EXTENDED_ARG"]
     arg_defaults = {**_function_arg_defaults(func), **(bound_kwargs or {})}
     closure_by_name = _closure_lookup(func)
+    # The value of a variable the function itself assigns cannot be known
+    for instr in instructions:
+        if instr.opname in ("STORE_FAST", "STORE_DEREF"):
+            arg_defaults.pop(instr.argval, None)
+            closure_by_name.pop(instr.argval, None)
     constant_ints_by_name = _constant_ints_by_name(code)
 
     last_was_event = False
@@ -79,8 +84,6 @@ def inspect_event_handler(
     # cannot know which one runs at runtime. If any assignment uses an
     # unresolvable value (e.g. a local variable) we treat the whole detection
     # as ambiguous and return ``None`` rather than picking a fallback literal.
-    debounce_tainted = False
-
     for index, instr in enumerate(instructions):
         if (
             # The event is in a cell (``LOAD_DEREF``) if an inner function uses it
@@ -129,15 +132,14 @@ def inspect_event_handler(
                 constant_ints_by_name,
             )
             if isinstance(candidate, int) and not isinstance(candidate, bool):
-                if not debounce_tainted:
+                # The first assignment is used unless a later one is unresolvable
+                if debounce is None:
                     debounce = candidate
-                    check_debounce = False
-            elif candidate is None:
+            else:
                 # Value source is a name we cannot resolve at this point.
                 # This could be a module-level global, a local variable, or
                 # an expression. We can't determine the real debounce, so we
-                # refuse to guess even if a later literal assignment exists.
-                debounce_tainted = True
+                # refuse to guess even if another literal assignment exists.
                 debounce = None
                 check_debounce = False
 
-- 
2.43.0


From 67608c2450041efc1937ed84675acc719bc09384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 22/97] fix: coroutines returned by event handler functions are
 awaited

A callable object with an async __call__, or a lambda around a coroutine
function, is not recognized as a coroutine function and never ran.
---
 src/reactpy/core/events.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 94184d9..459af2f 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -218,14 +218,18 @@ def to_event_handler_function(
         else:
 
             async def wrapper(data: Sequence[Any]) -> None:
-                function(*data)
+                result = function(*data)
+                if inspect.iscoroutine(result):
+                    await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
     elif not inspect.iscoroutinefunction(function):
 
         async def wrapper(data: Sequence[Any]) -> None:
-            function(data)
+            result = function(data)
+            if inspect.iscoroutine(result):
+                await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
-- 
2.43.0


From 27c2415237c7f1518766259b24bb679139a560df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 23/97] fix: inline JavaScript of elements with a custom
 constructor is not lost

---
 src/reactpy/core/vdom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/vdom.py b/src/reactpy/core/vdom.py
index 9d8ba41..3c7be39 100644
--- a/src/reactpy/core/vdom.py
+++ b/src/reactpy/core/vdom.py
@@ -184,6 +184,11 @@ class Vdom:
                 attributes=attributes,
                 event_handlers=event_handlers,
             )
+            if inline_javascript:
+                if not self.__name__:
+                    msg = "Fragments cannot have attributes besides 'key'"
+                    raise TypeError(msg)
+                result = {**result, "inlineJavaScript": inline_javascript}
 
         # Otherwise, use the default constructor
         else:
-- 
2.43.0


From 5100532864d95c76b0df4e8399d7f02397a7cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 24/97] fix: SVG elements which contain text or other elements
 accept children

html.svg.text('...'), gradients, filters and the like raised a TypeError.
---
 src/reactpy/_html.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/reactpy/_html.py b/src/reactpy/_html.py
index 9cdc367..650b8d9 100644
--- a/src/reactpy/_html.py
+++ b/src/reactpy/_html.py
@@ -41,15 +41,12 @@ NO_CHILDREN_ALLOWED_SVG = {
     "animateMotion",
     "animateTransform",
     "circle",
-    "desc",
     "discard",
     "ellipse",
     "feBlend",
     "feColorMatrix",
-    "feComponentTransfer",
     "feComposite",
     "feConvolveMatrix",
-    "feDiffuseLighting",
     "feDisplacementMap",
     "feDistantLight",
     "feDropShadow",
@@ -60,37 +57,23 @@ NO_CHILDREN_ALLOWED_SVG = {
     "feFuncR",
     "feGaussianBlur",
     "feImage",
-    "feMerge",
     "feMergeNode",
     "feMorphology",
     "feOffset",
     "fePointLight",
-    "feSpecularLighting",
     "feSpotLight",
     "feTile",
     "feTurbulence",
-    "filter",
-    "foreignObject",
-    "hatch",
     "hatchpath",
     "image",
     "line",
-    "linearGradient",
-    "metadata",
     "mpath",
     "path",
     "polygon",
     "polyline",
-    "radialGradient",
     "rect",
-    "script",
     "set",
     "stop",
-    "style",
-    "text",
-    "textPath",
-    "title",
-    "tspan",
     "use",
     "view",
 }
-- 
2.43.0


From 63d104a56a14661428bdb84016e1484e0c74983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 25/97] fix: nothing is sent over a websocket before it has
 been accepted

The first update was sent right after the accept message only if the server
had its connect message ready at once.
---
 src/reactpy/executors/asgi/middleware.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index d6e81a3..8b198be 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -201,8 +201,10 @@ class ReactPyWebsocket(ResponseWebSocket):
         self.dispatcher: asyncio.Task[Any] | None = None
 
     async def __aenter__(self) -> ReactPyWebsocket:
+        # Updates can only be sent after the connection has been accepted
+        await super().__aenter__()  # type: ignore
         self.dispatcher = asyncio.create_task(self.run_dispatcher())
-        return await super().__aenter__()  # type: ignore
+        return self
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
-- 
2.43.0


From 9e43f31ea6d57804f9af26389463124229b117b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 26/97] fix: a connection whose rendering has ended still
 notices that the client left

With nobody reading it the queue of messages became full, and the app waited
forever for a place in it instead of receiving the disconnect message.
---
 src/reactpy/executors/asgi/middleware.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 8b198be..44f89c2 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -173,7 +173,7 @@ class ComponentDispatchApp:
                 if event["type"] == "websocket.receive":
                     msg: dict[str, str] = orjson.loads(event["text"])
                     if msg.get("type") == "layout-event":
-                        await ws.rendering_queue.put(msg)
+                        await ws.enqueue(msg)
                     else:  # nocov
                         await asyncio.to_thread(
                             _logger.warning, f"Unknown message type: {msg.get('type')}"
@@ -211,6 +211,20 @@ class ReactPyWebsocket(ResponseWebSocket):
             self.dispatcher.cancel()
         await super().__aexit__()  # type: ignore
 
+    async def enqueue(self, msg: dict[str, str]) -> None:
+        """Add a message to the rendering queue, unless nothing will ever read it."""
+        dispatcher = self.dispatcher
+        if not dispatcher or dispatcher.done():
+            return
+        if not self.rendering_queue.full():
+            self.rendering_queue.put_nowait(msg)
+            return
+        put = asyncio.ensure_future(self.rendering_queue.put(msg))
+        try:
+            await asyncio.wait((put, dispatcher), return_when=asyncio.FIRST_COMPLETED)
+        finally:
+            put.cancel()
+
     async def run_dispatcher(self) -> None:
         """Async background task that renders ReactPy components over a websocket."""
         try:
-- 
2.43.0


From 251fadf6c3d58d2647426869a35bd96652f711ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 27/97] fix: an event whose handler gets another target is no
 longer handled at the old one

---
 src/reactpy/core/layout.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 57bb396..e6ee902 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -494,10 +494,9 @@ class Layout(BaseLayout):
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
-        for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            self._remove_event_handler(
-                old_state, old_state.targets_by_event[old_event]
-            )
+        # even the handler of an event that's still handled may have another target now
+        for old_target in old_state.targets_by_event.values():
+            self._remove_event_handler(old_state, old_target)
 
         if not handlers_by_event:
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
-- 
2.43.0


From ec89f81bdda118a3b42ff3af25ac8e4ded402770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 28/97] fix: a layout that is cancelled while it closes still
 unmounts everything

---
 src/reactpy/core/layout.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index e6ee902..d9809a3 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -9,6 +9,7 @@ from asyncio import (
     create_task,
     current_task,
     get_running_loop,
+    shield,
     sleep,
     wait,
 )
@@ -111,6 +112,15 @@ class Layout(BaseLayout):
     async def __aexit__(
         self, exc_type: type[Exception], exc_value: Exception, traceback: TracebackType
     ) -> None:
+        # everything must be unmounted even if the current task is cancelled meanwhile
+        closing = create_task(self._close())
+        try:
+            await shield(closing)
+        except CancelledError:
+            await wait([closing])
+            raise
+
+    async def _close(self) -> None:
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
 
-- 
2.43.0


From b32b14fddc4e06097fc0f6e13671b856b15bc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 29/97] fix: a route only matches whole paths, also when its
 pattern has alternatives

---
 src/reactpy/executors/asgi/standalone.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index e962707..91598e4 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -111,7 +111,7 @@ class ReactPy(ReactPyMiddleware):
             (
                 app
                 for route, app in routing_dictionary
-                if re.match(route, scope["path"])
+                if re.fullmatch(route, scope["path"])
             ),
             None,
         )
@@ -149,17 +149,11 @@ class ReactPy(ReactPyMiddleware):
         def decorator(
             app: AsgiApp | str,
         ) -> AsgiApp:
-            re_path = path
-            if not re_path.startswith("^"):
-                re_path = f"^{re_path}"
-            if not re_path.endswith("$"):
-                re_path = f"{re_path}$"
-
             asgi_app: AsgiApp = import_dotted_path(app) if isinstance(app, str) else app
             if type == "http":
-                self.extra_http_routes[re_path] = cast(AsgiV3HttpApp, asgi_app)
+                self.extra_http_routes[path] = cast(AsgiV3HttpApp, asgi_app)
             elif type == "websocket":
-                self.extra_ws_routes[re_path] = cast(AsgiV3WebsocketApp, asgi_app)
+                self.extra_ws_routes[path] = cast(AsgiV3WebsocketApp, asgi_app)
 
             return asgi_app
 
-- 
2.43.0


From 84dec10f7d77daff8bf840924a6031764d896186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 30/97] fix: the path prefix is not a regular expression

---
 src/reactpy/executors/asgi/middleware.py | 2 +-
 src/reactpy/executors/asgi/pyscript.py   | 2 +-
 src/reactpy/executors/asgi/standalone.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 44f89c2..44ebb26 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -91,7 +91,7 @@ class ReactPyMiddleware:
         self.web_modules_path = f"{self.path_prefix}modules/"
         self.static_path = f"{self.path_prefix}static/"
         self.dispatcher_pattern = re.compile(
-            f"^{self.dispatcher_path}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
+            f"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
         )
 
         # User defined ASGI apps
diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index 9c7bfcf..de0ceac 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -81,7 +81,7 @@ class ReactPyCsr(ReactPy):
         self.root_name = root_name
         self.initial = initial
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 91598e4..f64975c 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -71,7 +71,7 @@ class ReactPy(ReactPyMiddleware):
         super().__init__(app=ReactPyApp(self), root_components=[], **settings)
         self.root_component = root_component
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
-- 
2.43.0


From 157c3c596a07673a0610e283ebce0d5163df3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 31/97] fix: the content-length of the page counts bytes

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index f64975c..a4db60a 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -209,7 +209,7 @@ class ReactPyApp:
             "last-modified": self._last_modified,
             "access-control-allow-origin": "*",
             "cache-control": "max-age=60, public",
-            "content-length": str(len(self._index_html)),
+            "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
             **self.parent.extra_headers,
         }
-- 
2.43.0


From f6357ed65807308f77aa4b61f9da574cda152b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 32/97] fix: If-Modified-Since is ignored when there is an
 If-None-Match

---
 src/reactpy/executors/asgi/standalone.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index a4db60a..97b7890 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -220,9 +220,11 @@ class ReactPyApp:
             return await response(scope, receive, send)  # type: ignore
 
         # Browser already has the content cached
-        if (
-            request_headers.get(b"if-none-match") == self._etag.encode()
-            or request_headers.get(b"if-modified-since") == self._last_modified.encode()
+        # (`If-Modified-Since` only counts in the absence of `If-None-Match`)
+        if_none_match = request_headers.get(b"if-none-match")
+        if_modified_since = request_headers.get(b"if-modified-since")
+        if if_none_match == self._etag.encode() or (
+            if_none_match is None and if_modified_since == self._last_modified.encode()
         ):
             response_headers.pop("content-length")
             response = ResponseHTML("", headers=response_headers, status_code=304)
-- 
2.43.0


From f62beaa01e6a5f6aac7d549bd44256477ed4f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 33/97] fix: extra headers replace the default ones whatever
 their case

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 97b7890..62d70c0 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -211,7 +211,7 @@ class ReactPyApp:
             "cache-control": "max-age=60, public",
             "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
-            **self.parent.extra_headers,
+            **{k.lower(): v for k, v in self.parent.extra_headers.items()},
         }
 
         # Browser is asking for the headers
-- 
2.43.0


From 6095bfa7b481b08aa3eb6230d071b7453b52d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 34/97] fix: an application does not modify the head it is
 given

---
 src/reactpy/executors/asgi/standalone.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 62d70c0..77e0bec 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -80,7 +80,6 @@ class ReactPy(ReactPyMiddleware):
         self.html_lang = html_lang
 
         if pyscript_setup:
-            self.html_head.setdefault("children", [])
             pyscript_options = pyscript_options or {}
             extra_py = pyscript_options.get("extra_py", [])
             extra_js = pyscript_options.get("extra_js", {})
@@ -89,7 +88,17 @@ class ReactPy(ReactPyMiddleware):
                 pyscript_setup_html(extra_py, extra_js, config)
             )
             pyscript_head_vdom["tagName"] = ""
-            self.html_head["children"].append(pyscript_head_vdom)  # type: ignore
+            # Do not modify the user's object, it may be used elsewhere
+            self.html_head = cast(
+                VdomDict,
+                {
+                    **self.html_head,
+                    "children": [
+                        *self.html_head.get("children", []),
+                        pyscript_head_vdom,
+                    ],
+                },
+            )
 
     def match_dispatch_path(self, scope: AsgiWebsocketScope) -> bool:
         """Method override to remove `dotted_path` from the dispatcher URL."""
-- 
2.43.0


From 94ee92d88a686463afa548eef69a7bfa9d051ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 35/97] fix: the import map is right when the path prefix is
 '/'

---
 src/reactpy/executors/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 291674a..7145541 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -93,12 +93,12 @@ def server_side_component_html(
 
 
 def default_import_map() -> str:
-    path_prefix = REACTPY_PATH_PREFIX.current.strip("/")
+    path_prefix = REACTPY_PATH_PREFIX.current
     return f"""{{
                 "imports": {{
-                    "react": "/{path_prefix}/static/preact.js",
-                    "react-dom": "/{path_prefix}/static/preact-dom.js",
-                    "react-dom/client": "/{path_prefix}/static/preact-dom.js",
-                    "react/jsx-runtime": "/{path_prefix}/static/preact-jsx-runtime.js"
+                    "react": "{path_prefix}static/preact.js",
+                    "react-dom": "{path_prefix}static/preact-dom.js",
+                    "react-dom/client": "{path_prefix}static/preact-dom.js",
+                    "react/jsx-runtime": "{path_prefix}static/preact-jsx-runtime.js"
                 }}
             }}""".replace("\n", "").replace(" ", "")
-- 
2.43.0


From 28c52d9d497b0e7ba993b267c2232d08ecc35ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 36/97] fix: the PyScript setup is only inserted at the end of
 the head

---
 src/reactpy/executors/asgi/pyscript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index de0ceac..3f5441e 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -120,7 +120,7 @@ class ReactPyPyscriptApp(ReactPyApp):
             initial=self.parent.initial,
             root=self.parent.root_name,
         )
-        head_content = head_content.replace("</head>", f"{pyscript_setup}</head>")
+        head_content = f"{head_content.removesuffix('</head>')}{pyscript_setup}</head>"
 
         self._index_html = (
             "<!doctype html>"
-- 
2.43.0


From ba27f6852d9922fcd0e63d2f97f727f405918dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 37/97] fix: HTML made of elements keeps non-ASCII text in
 scripts and styles

---
 src/reactpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index bb0bc5b..87f7b7e 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -75,7 +75,7 @@ def reactpy_to_string(root: VdomDict | Component) -> str:
         root = component_to_vdom(root)
 
     _add_vdom_to_etree(temp_container, root)
-    html = etree.tostring(temp_container, method="html").decode()
+    html = etree.tostring(temp_container, method="html", encoding="unicode")
 
     # Strip out temp root <__temp__> element
     return html[10:-11]
-- 
2.43.0


From 5943459dd2d714dddc6c3c58fa78610df45ad471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 38/97] fix: children which are None do not appear in HTML

---
 src/reactpy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 87f7b7e..59fe792 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -208,6 +208,8 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         # this reason that, depending on whether the element being constructed has
         # non-string a child element, we need to assign a `text` vs `tail` attribute
         # to that element or the last non-string child respectively.
+        elif c is None:
+            continue
         elif len(element):
             last_child = element[-1]
             last_child.tail = f"{last_child.tail or ''}{c}"
-- 
2.43.0


From 16ede44a3223cb53b77aa8604184d646ec40f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 39/97] fix: attributes which are True, False or None mean the
 same in HTML

---
 src/reactpy/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 59fe792..b299e72 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -185,6 +185,7 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element.attrib.update(
             _react_attribute_to_html(k, v)
             for k, v in vdom.get("attributes", {}).items()
+            if not _is_absent_html_attribute(k, v)
         )
     else:
         element = parent
@@ -252,6 +253,11 @@ def component_to_vdom(component: Component) -> VdomDict:
     return h.div(result) if isinstance(result, str) else h.div()
 
 
+def _is_absent_html_attribute(key: str, value: Any) -> bool:
+    """Whether an attribute with this value does not appear on the element."""
+    return value is None or (value is False and not key.startswith(("data-", "aria-")))
+
+
 def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     """Convert a React attribute to an HTML attribute string."""
     if callable(value):  # nocov
@@ -270,9 +276,9 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
 
     # Retain data-* and aria-* attributes as provided
     elif key.startswith("data-") or key.startswith("aria-"):
-        return key, str(value)
+        return key, str(value).lower() if isinstance(value, bool) else str(value)
 
-    return key.lower(), str(value)
+    return key.lower(), "" if value is True else str(value)
 
 
 # see list of HTML attributes with dashes in them:
-- 
2.43.0


From e6752c89c9e0eb0c28cef9423fb8e96455cda303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 40/97] fix: attributes have their HTML names in HTML, and
 initial values are where HTML has them

---
 src/reactpy/utils.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index b299e72..cb0de86 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -180,6 +180,8 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
     else:
         vdom = cast(VdomDict, vdom)
 
+    children = vdom.get("children", [])
+
     if tag:
         element = etree.SubElement(parent, tag)
         element.attrib.update(
@@ -190,7 +192,14 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
     else:
         element = parent
 
-    for c in vdom.get("children", []):
+    # HTML has the initial value of these elements in their content
+    default_value = None
+    if tag in {"textarea", "select"}:
+        default_value = element.attrib.pop("value", None)
+    if tag == "textarea" and default_value is not None:
+        children = [default_value]
+
+    for c in children:
         if hasattr(c, "render"):
             c = component_to_vdom(cast(Component, c))
         if isinstance(c, dict):
@@ -217,6 +226,13 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         else:
             element.text = f"{element.text or ''}{c}"
 
+    if tag == "select" and default_value is not None:
+        selected = vdom["attributes"].get("value", vdom["attributes"].get("defaultValue"))
+        selected = selected if isinstance(selected, (list, tuple)) else [selected]
+        for option in element.iter("option"):
+            if option.get("value", option.text or "") in map(str, selected):
+                option.set("selected", "")
+
 
 def _generate_vdom_children(
     node: etree._Element, transforms: Iterable[_ModelTransform], intercept_links: bool
@@ -270,6 +286,10 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
                 for k, v in value.items()
             )
 
+    # Convert attributes which have another name in ReactJS
+    elif key in RENAMED_HTML_ATTRS:
+        key = RENAMED_HTML_ATTRS[key]
+
     # Convert special attributes to kebab-case
     elif key in DASHED_HTML_ATTRS:
         key = CAMEL_CASE_PATTERN.sub("-", key)
@@ -285,6 +305,14 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
 
+# Attributes that are called differently in ReactJS
+RENAMED_HTML_ATTRS = {
+    "className": "class",
+    "htmlFor": "for",
+    "defaultValue": "value",
+    "defaultChecked": "checked",
+}
+
 # Pattern for delimitting camelCase names (e.g. camelCase to camel-case)
 CAMEL_CASE_PATTERN = re.compile(r"(?<!^)(?=[A-Z])")
 
-- 
2.43.0


From 0f8b490e3461ab81b1cfa7275a57df11d2a590a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 41/97] fix: options without text can be converted from HTML

---
 src/reactpy/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index f1896c8..851d994 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -141,7 +141,8 @@ class RequiredTransforms:
 
         vdom = vdom_or_any
         if vdom["tagName"] == "option" and "attributes" in vdom:
-            value = vdom["attributes"].setdefault("value", vdom["children"][0])
+            text = "".join(c for c in vdom.get("children", []) if isinstance(c, str))
+            value = vdom["attributes"].setdefault("value", text)
 
             if "selected" in vdom["attributes"]:
                 vdom["attributes"].pop("selected")
-- 
2.43.0


From c0390a2350fa102dd3e5db9de20862823c855f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 42/97] fix: form fields of the same name do not get the same
 key

---
 src/reactpy/transforms.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 851d994..738582a 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -116,6 +116,25 @@ class RequiredTransforms:
         if key and "key" not in attributes:
             attributes["key"] = key
 
+    @staticmethod
+    def remove_shared_names_from_keys(vdom: VdomDict) -> None:
+        """Names do not need to be unique (e.g. radio buttons), but the keys of siblings do."""
+        named = [
+            child["attributes"]
+            for child in vdom.get("children", [])
+            if isinstance(child, dict)
+            and child["tagName"] in {"input", "select", "textarea"}
+            and child.get("attributes", {}).get("name")
+            and "id" not in child["attributes"]
+        ]
+        names = [attributes["name"] for attributes in named]
+        for attributes in named:
+            if (
+                names.count(attributes["name"]) > 1
+                and attributes.get("key") == attributes["name"]
+            ):
+                del attributes["key"]
+
     def intercept_link_clicks(self, vdom: VdomDict) -> None:
         """Intercepts anchor link clicks and prevents the default behavior.
         This allows ReactPy-Router to handle the navigation instead of the browser."""
-- 
2.43.0


From 9f8e0509d83731676b18042243727cb40ad597e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 43/97] fix: styles with custom properties or with semicolons
 in values are converted from HTML

---
 src/reactpy/transforms.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 738582a..dc3dc1f 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from typing import Any, cast
 
 from reactpy.core.events import EventHandler, to_event_handler_function
@@ -16,6 +17,12 @@ def attributes_to_reactjs(attributes: VdomAttributes):
     return attrs
 
 
+# Semicolons, except for those in parentheses and quotes
+_CSS_DECLARATION_END = re.compile(
+    r""";(?=(?:[^()"']|\([^)]*\)|"[^"]*"|'[^']*')*$)"""
+)
+
+
 class RequiredTransforms:
     """Performs any necessary transformations related to `string_to_reactpy` to automatically prevent
     issues with React's rendering engine.
@@ -41,7 +48,7 @@ class RequiredTransforms:
                 self._kebab_to_camel_case(key.strip()): value.strip()
                 for key, value in (
                     part.split(":", 1)
-                    for part in vdom["attributes"]["style"].split(";")
+                    for part in _CSS_DECLARATION_END.split(vdom["attributes"]["style"])
                     if ":" in part
                 )
             }
@@ -175,6 +182,9 @@ class RequiredTransforms:
     @staticmethod
     def _kebab_to_camel_case(kebab_case: str) -> str:
         """Convert kebab-case to camelCase."""
+        # Custom properties do not have another name
+        if kebab_case.startswith("--"):
+            return kebab_case
         return "".join(
             part.capitalize() if i else part
             for i, part in enumerate(kebab_case.split("-"))
-- 
2.43.0


From 19f4c1166456ccc57d1eed415b0ea3db160fd2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 44/97] fix: styles with custom properties or vendor prefixes
 are converted to HTML

---
 src/reactpy/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index cb0de86..1940551 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -282,8 +282,7 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
-                f"{CAMEL_CASE_PATTERN.sub('-', k).lower()}:{v}"
-                for k, v in value.items()
+                f"{_react_style_to_css(k)}:{v}" for k, v in value.items()
             )
 
     # Convert attributes which have another name in ReactJS
@@ -301,6 +300,16 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     return key.lower(), "" if value is True else str(value)
 
 
+def _react_style_to_css(key: str) -> str:
+    """Convert the name of a React style to a CSS property."""
+    # Custom properties do not have another name
+    if key.startswith("--"):
+        return key
+    css = CAMEL_CASE_PATTERN.sub("-", key).lower()
+    # Vendor prefixes are capitalized in ReactJS, except for `ms`
+    return f"-{css}" if key[:1].isupper() or css.startswith("ms-") else css
+
+
 # see list of HTML attributes with dashes in them:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
-- 
2.43.0


From be2a64ffe1253f042a6646ad6ce404bb2d0a9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 45/97] fix: boolean attributes without a value are not turned
 off when converted from HTML

---
 src/reactpy/transforms.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index dc3dc1f..8abef6d 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -12,7 +12,13 @@ def attributes_to_reactjs(attributes: VdomAttributes):
     attrs = cast(VdomAttributes, attributes.items())
     attrs = cast(
         VdomAttributes,
-        {REACT_PROP_SUBSTITUTIONS.get(k, k): v for k, v in attrs},
+        {
+            # ReactJS takes empty text for `False`
+            REACT_PROP_SUBSTITUTIONS.get(k, k): (
+                True if v == "" and k in BOOLEAN_HTML_ATTRS else v
+            )
+            for k, v in attrs
+        },
     )
     return attrs
 
@@ -191,6 +197,34 @@ class RequiredTransforms:
         )
 
 
+BOOLEAN_HTML_ATTRS = {
+    "allowfullscreen",
+    "async",
+    "autofocus",
+    "autoplay",
+    "checked",
+    "controls",
+    "default",
+    "defer",
+    "disabled",
+    "formnovalidate",
+    "hidden",
+    "inert",
+    "ismap",
+    "itemscope",
+    "loop",
+    "multiple",
+    "muted",
+    "nomodule",
+    "novalidate",
+    "open",
+    "playsinline",
+    "readonly",
+    "required",
+    "reversed",
+    "selected",
+}
+
 KNOWN_REACT_PROPS = {
     "onLoadStart",
     "onTouchStart",
-- 
2.43.0


From 6d1d2a34849ef44db376ded6a3e5d515392c6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 46/97] fix: styles with the vendor prefix -ms- have their
 React name when converted from HTML

---
 src/reactpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 8abef6d..d3ecd68 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -191,6 +191,9 @@ class RequiredTransforms:
         # Custom properties do not have another name
         if kebab_case.startswith("--"):
             return kebab_case
+        # React's name of this vendor prefix is not capitalized
+        if kebab_case.startswith("-ms-"):
+            kebab_case = kebab_case[1:]
         return "".join(
             part.capitalize() if i else part
             for i, part in enumerate(kebab_case.split("-"))
-- 
2.43.0


From 11e6eed55eec9318de4e4044b8e39f010708456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 47/97] fix: all references of a JavaScript module are resolved
 against its own URL

---
 src/reactpy/reactjs/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index aee317b..5718ed6 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -62,8 +62,10 @@ def resolve_names_from_url(
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
 
     for ref in references:
-        url = normalize_url_path(url, ref)
-        names.update(resolve_names_from_url(url, max_depth - 1, is_regex_import=True))
+        ref_url = normalize_url_path(url, ref)
+        names.update(
+            resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)
+        )
 
     return names
 
-- 
2.43.0


From 271f822a1bcd63564385099b91674f27d65e416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 48/97] fix: names of a JavaScript module are resolved although
 a reference cannot be fetched

---
 src/reactpy/reactjs/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 5718ed6..2404559 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -54,9 +54,8 @@ def resolve_names_from_url(
 
     try:
         text = requests.get(url, timeout=5).text
-    except requests.exceptions.ConnectionError as error:
-        reason = "" if error is None else " - {error.errno}"
-        logger.warning(f"Did not resolve imports for url {url} {reason}")
+    except requests.exceptions.RequestException as error:
+        logger.warning(f"Did not resolve imports for url {url} - {error}")
         return set()
 
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
-- 
2.43.0


From 0d3cff4e2b51f10302f9e7005bd5a2925e294c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 49/97] fix: names of JavaScript modules made of files can have
 several parts

---
 src/reactpy/reactjs/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 337b1ec..1fa95fe 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -54,6 +54,7 @@ def file_to_module(
     source_file = Path(file).resolve()
     target_file = get_module_path(name)
 
+    target_file.parent.mkdir(parents=True, exist_ok=True)
     with file_lock(target_file.with_name(f"{target_file.name}.lock")):
         if not source_file.exists():
             msg = f"Source file does not exist: {source_file}"
-- 
2.43.0


From d73832bd4b9c6a949995e531589d7d821044b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 50/97] fix: the lock of a process that died does not keep a
 JavaScript module from being published

---
 src/reactpy/reactjs/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 2404559..9c38a1f 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -209,6 +209,11 @@ def file_lock(lock_file: Path, timeout: float = 10.0):
             os.close(fd)
             break
         except OSError as e:
+            with suppress(OSError):
+                # Nobody holds a lock that long: its process must have died
+                if time.time() - lock_file.stat().st_mtime > timeout:
+                    lock_file.unlink()
+                    continue
             if time.time() - start_time > timeout:
                 raise TimeoutError(f"Could not acquire lock {lock_file}") from e
             time.sleep(0.1)
-- 
2.43.0


From 5a2e9395c03420c70caa63212cda054c70c67fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 51/97] fix: JavaScript modules made of strings are never seen
 missing or incomplete

---
 src/reactpy/reactjs/module.py | 20 ++++++++++++--------
 src/reactpy/reactjs/utils.py  | 26 +++++++++++++++-----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 1fa95fe..211aab3 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -11,6 +11,7 @@ from reactpy.reactjs.utils import (
     are_files_identical,
     copy_file,
     file_lock,
+    replace_file,
     resolve_names_from_file,
     resolve_names_from_url,
 )
@@ -95,15 +96,18 @@ def string_to_module(
 
     target_file = get_module_path(name)
 
-    if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
-        logger.info(
-            f"Existing web module {name!r} will "
-            f"be replaced with {target_file.resolve()}"
-        )
-        target_file.unlink()
-
     target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content)
+    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
+        if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
+            logger.info(
+                f"Existing web module {name!r} will "
+                f"be replaced with {target_file.resolve()}"
+            )
+
+        # Browsers must not get to see an incomplete file
+        temp_file = target_file.with_suffix(f"{target_file.suffix}.tmp")
+        temp_file.write_text(content, encoding="utf-8")
+        replace_file(temp_file, target_file)
 
     return JavaScriptModule(
         source=name,
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 9c38a1f..ed20ac2 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -173,20 +173,24 @@ def copy_file(target: Path, source: Path, symlink: bool) -> None:
     else:
         temp_target = target.with_suffix(f"{target.suffix}.tmp")
         shutil.copy(source, temp_target)
+        replace_file(temp_target, target)
+
+
+def replace_file(temp_target: Path, target: Path) -> None:
+    try:
+        temp_target.replace(target)
+    except OSError:
+        # On Windows, replace might fail if the file is open
+        # Retry once after a short delay
+        time.sleep(0.1)
         try:
             temp_target.replace(target)
         except OSError:
-            # On Windows, replace might fail if the file is open
-            # Retry once after a short delay
-            time.sleep(0.1)
-            try:
-                temp_target.replace(target)
-            except OSError:
-                # If it still fails, try to unlink and rename
-                # This is not atomic, but it's a fallback
-                if target.exists():
-                    target.unlink()
-                temp_target.rename(target)
+            # If it still fails, try to unlink and rename
+            # This is not atomic, but it's a fallback
+            if target.exists():
+                target.unlink()
+            temp_target.rename(target)
 
 
 _JS_DEFAULT_EXPORT_PATTERN = re.compile(
-- 
2.43.0


From b78eed432418146afbc8a15d75134f1824fa9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 52/97] fix: a symlinked JavaScript module can be replaced
 while it is in use and when its file is gone

---
 src/reactpy/reactjs/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index ed20ac2..885ddd4 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -161,11 +161,13 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
     target.parent.mkdir(parents=True, exist_ok=True)
     if symlink:
-        if target.exists():
-            target.unlink()
+        temp_link = target.with_suffix(f"{target.suffix}.link")
         try:
-            target.symlink_to(source)
+            temp_link.unlink(missing_ok=True)
+            temp_link.symlink_to(source)
+            replace_file(temp_link, target)
         except OSError as error:
+            target.unlink(missing_ok=True)
             try:
                 os.link(source, target)
             except OSError as e:
-- 
2.43.0


From 3c692c0e3cc743705b4db37596ee6a73d5fd6b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 53/97] fix: a JavaScript module follows changes of its file
 if, and only if, it is symlinked

---
 src/reactpy/reactjs/module.py | 4 ++--
 src/reactpy/reactjs/utils.py  | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 211aab3..04700ff 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -8,9 +8,9 @@ from reactpy.config import REACTPY_DEBUG, REACTPY_WEB_MODULES_DIR
 from reactpy.core.vdom import Vdom
 from reactpy.reactjs.types import NAME_SOURCE, URL_SOURCE
 from reactpy.reactjs.utils import (
-    are_files_identical,
     copy_file,
     file_lock,
+    is_published,
     replace_file,
     resolve_names_from_file,
     resolve_names_from_url,
@@ -63,7 +63,7 @@ def file_to_module(
 
         if not target_file.exists():
             copy_file(target_file, source_file, symlink)
-        elif not are_files_identical(source_file, target_file):
+        elif not is_published(source_file, target_file, symlink):
             logger.info(
                 f"Existing web module {name!r} will "
                 f"be replaced with {target_file.resolve()}"
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 885ddd4..a601d5e 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -158,6 +158,13 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
     ) or filecmp.cmp(str(f1), str(f2), shallow=False)
 
 
+def is_published(source: Path, target: Path, symlink: bool) -> bool:
+    if symlink or target.is_symlink():
+        # A copy does not follow the changes of its source
+        return symlink and target.samefile(source)
+    return are_files_identical(source, target)
+
+
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
     target.parent.mkdir(parents=True, exist_ok=True)
     if symlink:
-- 
2.43.0


From ccefd0c9832fd86c11777bcdce5af0d991981144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 54/97] fix: components of a JavaScript module do not get the
 fallback of another component

---
 src/reactpy/reactjs/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index d394757..5a4529d 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -94,7 +94,6 @@ def component_from_url(
     else:
         module = url_to_module(
             url,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -276,7 +275,6 @@ def component_from_file(
         module = file_to_module(
             name,
             file,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -355,7 +353,6 @@ def component_from_string(
         module = string_to_module(
             name,
             content,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
-- 
2.43.0


From e8c54ae97807793955667104fbfe5ccd0bdbfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 55/97] fix: a JavaScript module is published again when its
 name has been used for another one

---
 src/reactpy/reactjs/__init__.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index 5a4529d..3b13007 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -15,6 +15,7 @@ from reactpy.reactjs.types import (
     NAME_SOURCE,
     URL_SOURCE,
 )
+from reactpy.reactjs.utils import is_published
 from reactpy.types import JavaScriptModule, VdomConstructor
 
 __all__ = [
@@ -269,9 +270,15 @@ def component_from_file(
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
     key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _FILE_JS_MODULE_CACHE:
-        module = _FILE_JS_MODULE_CACHE[key]
-    else:
+    module = _FILE_JS_MODULE_CACHE.get(key)
+    # The name may have been used for another file since then, or the file has changed
+    if (
+        module is None
+        or not module.file
+        or not module.file.exists()
+        or not Path(file).exists()
+        or not is_published(Path(file).resolve(), module.file, symlink)
+    ):
         module = file_to_module(
             name,
             file,
@@ -347,9 +354,14 @@ def component_from_string(
     """
     name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
     key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _STRING_JS_MODULE_CACHE:
-        module = _STRING_JS_MODULE_CACHE[key]
-    else:
+    module = _STRING_JS_MODULE_CACHE.get(key)
+    # The name may have been used for another module since then
+    if (
+        module is None
+        or not module.file
+        or not module.file.exists()
+        or module.file.read_bytes() != content.encode()
+    ):
         module = string_to_module(
             name,
             content,
-- 
2.43.0


From decc2aa5dba8c3f5425d031c40f089c2f4f516e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 56/97] fix: exports that are common in JavaScript modules are
 found

---
 src/reactpy/reactjs/utils.py | 65 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index a601d5e..48ba2ab 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -91,37 +91,36 @@ def resolve_names_from_source(
 
     for name in _JS_GENERAL_EXPORT_PATTERN.findall(content):
         name = name.rstrip(";").strip()
-        # Exporting individual features
-        if name.startswith("let "):
-            all_names.update(let.split("=", 1)[0] for let in name[4:].split(","))
-        # Renaming exports and export list
-        elif name.startswith("{") and name.endswith("}"):
-            all_names.update(
-                item.split(" as ", 1)[-1] for item in name.strip("{}").split(",")
-            )
         # Exporting destructured assignments with renaming
-        elif name.startswith("const "):
+        if name.startswith("const {"):
             all_names.update(
                 item.split(":", 1)[0]
                 for item in name[6:].split("=", 1)[0].strip("{}").split(",")
             )
+        # Exporting individual features
+        elif match := _JS_VARIABLES_PATTERN.match(name):
+            all_names.update(
+                variable.split("=", 1)[0]
+                for variable in _without_nested_code(match[1]).split(",")
+            )
+        # Renaming exports, export lists and aggregating modules
+        elif match := _JS_EXPORT_LIST_PATTERN.match(name):
+            all_names.update(
+                _JS_RENAME_PATTERN.split(item.strip(), maxsplit=1)[-1]
+                for item in match[1].split(",")
+            )
         # Default exports
-        elif name.startswith("default "):
+        elif name.startswith("default"):
             all_names.add("default")
         # Aggregating modules
-        elif name.startswith("* as "):
-            all_names.add(name[5:].split(" from ", 1)[0])
-        elif name.startswith("* "):
-            references.add(name[2:].split("from ", 1)[-1].strip("'\""))
-        elif name.startswith("{") and " from " in name:
-            all_names.update(
-                item.split(" as ", 1)[-1]
-                for item in name.split(" from ")[0].strip("{}").split(",")
-            )
-        elif not (name.startswith("function ") or name.startswith("class ")):
+        elif match := _JS_EXPORT_NAMESPACE_PATTERN.match(name):
+            all_names.add(match[1])
+        elif match := _JS_EXPORT_ALL_PATTERN.match(name):
+            references.add(match[1])
+        elif not _JS_FUNC_OR_CLS_PATTERN.match(name):
             logger.warning(f"Found unknown export type {name!r}")
 
-    all_names = {n.strip() for n in all_names}
+    all_names = {n.strip() for n in all_names if n.strip()}
     references = {r.strip() for r in references}
 
     if exclude_default and "default" in all_names:
@@ -202,15 +201,33 @@ def replace_file(temp_target: Path, target: Path) -> None:
             temp_target.rename(target)
 
 
+def _without_nested_code(code: str) -> str:
+    """Remove the parts of JavaScript code that are quoted or in brackets."""
+    code = _JS_STRING_PATTERN.sub("", code)
+    removed = 1
+    while removed:
+        code, removed = _JS_BRACKETS_PATTERN.subn("", code)
+    # What is left belongs to brackets that are closed on another line
+    return re.split(r"[(\[{]", code, maxsplit=1)[0]
+
+
 _JS_DEFAULT_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+default\s",
+    r";?\s*export\s+default\b",
 )
 _JS_FUNC_OR_CLS_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+(?:function|class)\s+([a-zA-Z_$][0-9a-zA-Z_$]*)"
+    r";?\s*export\s+(?:(?:async\s+)?function(?:\s*\*\s*|\s+)|class\s+)([a-zA-Z_$][0-9a-zA-Z_$]*)"
 )
 _JS_GENERAL_EXPORT_PATTERN = re.compile(
-    r"(?:^|;|})\s*export(?=\s+|{)(.*?)(?=;|$)", re.MULTILINE
+    r"(?:^|;|})\s*export(?=\s+|{|\*)(\s*{[^}]*}[^;\n]*|.*?)(?=;|$)", re.MULTILINE
 )
+_JS_FUNC_OR_CLS_PATTERN = re.compile(r"(?:(?:async\s+)?function|class)\b")
+_JS_VARIABLES_PATTERN = re.compile(r"(?:let|const|var)\s+([a-zA-Z_$].*)")
+_JS_EXPORT_LIST_PATTERN = re.compile(r"{([^}]*)}")
+_JS_EXPORT_NAMESPACE_PATTERN = re.compile(r"\*\s*as\s+([a-zA-Z_$][0-9a-zA-Z_$]*)")
+_JS_EXPORT_ALL_PATTERN = re.compile(r"\*\s*from\s*[\"']([^\"']*)[\"']")
+_JS_RENAME_PATTERN = re.compile(r"\s+as\s+")
+_JS_STRING_PATTERN = re.compile(r"\"[^\"]*\"|'[^']*'|`[^`]*`")
+_JS_BRACKETS_PATTERN = re.compile(r"\([^()\[\]{}]*\)|\[[^()\[\]{}]*\]|{[^()\[\]{}]*}")
 
 
 @contextmanager
-- 
2.43.0


From 07990827f43e1087edf4bbef349cb79d533543cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 57/97] fix: the last name of an exported destructured
 assignment is found

---
 src/reactpy/reactjs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 48ba2ab..dcaea7d 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -95,7 +95,7 @@ def resolve_names_from_source(
         if name.startswith("const {"):
             all_names.update(
                 item.split(":", 1)[0]
-                for item in name[6:].split("=", 1)[0].strip("{}").split(",")
+                for item in name[6:].split("=", 1)[0].strip("{} ").split(",")
             )
         # Exporting individual features
         elif match := _JS_VARIABLES_PATTERN.match(name):
-- 
2.43.0


From df822bf5fc83d1b013cc3708f94d04353c47b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 58/97] fix: the names of a JavaScript module are those of its
 current content

---
 src/reactpy/reactjs/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index 3b13007..a9aafcd 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -269,14 +269,14 @@ def component_from_file(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    digest = hashlib.sha256(Path(file).read_bytes()).hexdigest()
+    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}{digest}"
     module = _FILE_JS_MODULE_CACHE.get(key)
-    # The name may have been used for another file since then, or the file has changed
+    # The name may have been used for another module since then
     if (
         module is None
         or not module.file
         or not module.file.exists()
-        or not Path(file).exists()
         or not is_published(Path(file).resolve(), module.file, symlink)
     ):
         module = file_to_module(
@@ -352,14 +352,16 @@ def component_from_string(
         allow_children:
             Whether or not these components can have children.
     """
-    name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    digest = hashlib.sha256(content.encode()).hexdigest()
+    name = name or digest[:10]
+    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}{digest}"
     module = _STRING_JS_MODULE_CACHE.get(key)
     # The name may have been used for another module since then
     if (
         module is None
         or not module.file
         or not module.file.exists()
+        or module.file.is_symlink()
         or module.file.read_bytes() != content.encode()
     ):
         module = string_to_module(
-- 
2.43.0


From 38850a413c913b882035128d38fa458619836177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 59/97] fix: the last selected option of a selection of one is
 the initial one, as in browsers

---
 src/reactpy/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index d3ecd68..043956a 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -89,7 +89,8 @@ class RequiredTransforms:
             if multiple_choice:
                 vdom["attributes"]["multiple"] = True
             if selected_options and not multiple_choice:
-                vdom["attributes"]["defaultValue"] = selected_options[0]
+                # Browsers select the last one
+                vdom["attributes"]["defaultValue"] = selected_options[-1]
             if selected_options and multiple_choice:
                 vdom["attributes"]["defaultValue"] = selected_options
 
-- 
2.43.0


From 1b197479ed4274979e4f14af8beb8db2440090bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 60/97] fix: an update of the root replaces all of the old
 model in the browser

---
 src/js/packages/@reactpy/client/src/components.tsx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index fe6004b..32aa76d 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -144,6 +144,11 @@ export function Layout(props: { client: ReactPyClient }): JSX.Element {
     () =>
       props.client.onMessage("layout-update", ({ path, model }) => {
         if (path === "") {
+          // clear old keys first, otherwise the error or the children of the old
+          // model stay if the new one doesn't have any
+          for (const key of Object.keys(currentModel)) {
+            delete (currentModel as any)[key];
+          }
           Object.assign(currentModel, model);
         } else {
           setJsonPointer(currentModel, path, model);
-- 
2.43.0


From 0eb39df2c97d3d306f3718d772a2909e6d134ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 61/97] fix: JavaScript modules can use sendMessage and
 onMessage of their context

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 0a12380..deb5e6c 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -39,8 +39,8 @@ export async function loadImportSource(
 
   return (node: HTMLElement) => {
     const binding = bind(node, {
-      sendMessage: client.sendMessage,
-      onMessage: client.onMessage,
+      sendMessage: client.sendMessage.bind(client),
+      onMessage: client.onMessage.bind(client),
     });
     if (
       !(
-- 
2.43.0


From 8a1f50159a5ea1b0e248063dec52be2ee0c64641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 62/97] fix: JavaScript components are bound once, and not
 rendered after their unmount

---
 src/js/packages/@reactpy/client/src/components.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 32aa76d..c5e75c7 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -515,7 +515,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding, mountPoint.current]);
+  }, [client, vdomImportSourceJsonString, setBinding]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-- 
2.43.0


From 5d34b655754c9d347b33d38b550985ce2ef53dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 63/97] fix: a late trailing call of a throttled handler does
 not follow a newer event

---
 src/js/packages/@reactpy/client/src/components.tsx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index c5e75c7..e299724 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -49,7 +49,13 @@ function throttleHandler(
     const now = Date.now();
     const elapsed = now - lastFireTime;
     if (elapsed >= intervalMs) {
-      // Leading edge: fire immediately, then start a cooldown.
+      // Leading edge: fire immediately, then start a cooldown. A trailing call
+      // whose timer is late must not follow with older arguments.
+      if (timer !== null) {
+        window.clearTimeout(timer);
+        timer = null;
+        pendingArgs = null;
+      }
       lastFireTime = now;
       (handler as (...a: any[]) => void)(...args);
       return;
-- 
2.43.0


From f35e7762e21d60c3f9ea386a20a6b8c3defe0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 64/97] fix: the events of an input are numbered as they are
 sent, so the last one cannot count as acknowledged

---
 .../@reactpy/client/src/components.tsx        | 61 ++++++++-----------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index e299724..52eddd1 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -259,10 +259,11 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // element owns a single monotonic counter across handlers.
   const sharedOutgoingSeq = useRef(0);
   // Highest sequence number actually sent. The server's
-  // ``_reactpy_ack_seq`` will catch up to this. ``sharedOutgoingSeq``
-  // is incremented optimistically in the wrapper; ``lastSentSeq``
-  // is the high-water mark.
+  // ``_reactpy_ack_seq`` will catch up to this.
   const lastSentSeq = useRef(-1);
+  // Names of the handlers with an event that is not sent yet because it
+  // is debounced or throttled.
+  const unsentEvents = useRef(new Set<string>());
 
   // honor changes to value from the client via props
   useEffect(() => {
@@ -290,7 +291,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // most recent keystroke), skip applying so we don't clobber
     // the user's text. This handles the realistic case where the
     // user types faster than the server can ack.
-    if (serverAckSeq < lastSentSeq.current) {
+    if (unsentEvents.current.size > 0 || serverAckSeq < lastSentSeq.current) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -344,46 +345,38 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // a debounce by default.
     const handlerDebounce = givenHandler[HANDLER_DEBOUNCE];
     const handlerThrottle = givenHandler[HANDLER_THROTTLE];
-    let wrapped: TaggedEventHandler = givenHandler;
-    if (isValidDebounce(handlerThrottle)) {
-      wrapped = throttleHandler(wrapped, handlerThrottle as number);
-    }
-    if (isValidDebounce(handlerDebounce)) {
-      wrapped = debounceHandler(wrapped, handlerDebounce as number);
-    }
-
-    props[name] = (event: TargetedEvent<any>) => {
+    const send = ((...args: any[]) => {
       // Use a per-element (shared across all handlers on this
       // element) monotonic counter for outgoing events. We
       // overwrite the handler's own ``outgoingSeq`` with this
       // counter so the wire-format seq number reflects the
-      // element-wide sequence. The handler closure's own
-      // ``outgoingSeq`` is unused for sequencing purposes now
-      // (it still exists as a default for non-wrapped callers).
-      //
-      // Critically, we increment the seq counter and update
-      // ``lastSentSeq`` on every *user* event, not on every
-      // server dispatch. If the handler is wrapped in a
-      // debounce that coalesces several events into one server
-      // dispatch, ``lastSentSeq`` will be higher than the seq
-      // actually sent to the server, which is fine — the seq
-      // we sent is the LATEST user-typed value, which is the
-      // one the server actually processed.
+      // element-wide sequence. The number is assigned when the
+      // event is sent: several user events may be coalesced into
+      // one message, and messages must be numbered in the order
+      // they are sent.
+      unsentEvents.current.delete(name);
       const seq = sharedOutgoingSeq.current++;
-      if (seq > lastSentSeq.current) {
-        lastSentSeq.current = seq;
-      }
+      lastSentSeq.current = seq;
       const taggedHandler = givenHandler as TaggedEventHandler & {
         _reactpy_set_seq?: (n: number) => void;
       };
       if (typeof taggedHandler._reactpy_set_seq === "function") {
-        // Push the handler's internal counter past our seq so
-        // the next (possibly debounced) dispatch uses a seq
-        // number that matches what the user just typed, not
-        // whatever stale value the handler closure happened
-        // to have left over.
-        taggedHandler._reactpy_set_seq(seq + 1);
+        taggedHandler._reactpy_set_seq(seq);
       }
+      (givenHandler as (...a: any[]) => void)(...args);
+    }) as TaggedEventHandler;
+    let wrapped: TaggedEventHandler = send;
+    if (isValidDebounce(handlerThrottle)) {
+      wrapped = throttleHandler(wrapped, handlerThrottle as number);
+    }
+    if (isValidDebounce(handlerDebounce)) {
+      wrapped = debounceHandler(wrapped, handlerDebounce as number);
+    }
+
+    props[name] = (event: TargetedEvent<any>) => {
+      // Until it is sent (possibly debounced or throttled) the server
+      // cannot account for this event, whatever it acknowledges.
+      unsentEvents.current.add(name);
 
       // ``onKeyPress`` fires before the DOM has been updated with
       // the new keystroke — ``event.target.value`` is the value
-- 
2.43.0


From 052a7f279eccfce0db895e24532c9fb877c25d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 65/97] fix: throttled and debounced events are neither lost
 nor sent too often when their element renders again

---
 .../@reactpy/client/src/components.tsx        | 54 ++++++++++++++++---
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 52eddd1..01d3f55 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -142,6 +142,48 @@ function debounceHandler(
   return wrapped;
 }
 
+/**
+ * Rate limits the event handlers of an element. The timing belongs to the
+ * element: it has to outlive the handlers, which are new on every render.
+ */
+function useRateLimits() {
+  const limits = useRef<{
+    [name: string]: {
+      throttle?: number;
+      debounce?: number;
+      handler: TaggedEventHandler;
+      limited: TaggedEventHandler;
+    };
+  }>({});
+
+  return (
+    name: string,
+    handler: TaggedEventHandler,
+    throttle?: number,
+    debounce?: number,
+  ): TaggedEventHandler => {
+    let limit = limits.current[name];
+    if (
+      !limit ||
+      limit.throttle !== throttle ||
+      limit.debounce !== debounce
+    ) {
+      const newLimit = { throttle, debounce, handler, limited: handler };
+      const latest = ((...args: any[]) =>
+        (newLimit.handler as (...a: any[]) => void)(
+          ...args,
+        )) as TaggedEventHandler;
+      newLimit.limited = debounceHandler(
+        throttleHandler(latest, throttle as number),
+        debounce as number,
+      );
+      limit = limits.current[name] = newLimit;
+    }
+    limit.handler = handler;
+    return limit.limited;
+  };
+}
+
 export function Layout(props: { client: ReactPyClient }): JSX.Element {
   const currentModel: ReactPyVdom = useState({ tagName: "" })[0];
   const forceUpdate = useForceUpdate();
@@ -196,6 +238,7 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
 function StandardElement({ model }: { model: ReactPyVdom }) {
   const client = useContext(ClientContext);
   const attrs = createAttributes(model, client);
+  const rateLimit = useRateLimits();
   // Apply the throttle wrapper to tagged handlers. ``throttle`` works on
   // every element; ``debounce`` is intentionally only applied by
   // ``UserInputElement`` (the only place where coalescing keystrokes
@@ -212,7 +255,7 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
     }
     const throttle = handler[HANDLER_THROTTLE];
     if (isValidDebounce(throttle)) {
-      attrs[name] = throttleHandler(handler, throttle as number);
+      attrs[name] = rateLimit(name, handler, throttle as number);
     }
   }
   // Use createElement here to avoid warning about variable numbers of children not
@@ -230,6 +273,7 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
 function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const client = useContext(ClientContext);
   const props = createAttributes(model, client);
+  const rateLimit = useRateLimits();
   // ``_reactpy_ack_seq`` is set by the server to the highest sequence
   // number it has received from this element's event handlers. We use
   // it (instead of a time-based debounce) to decide whether the server
@@ -365,13 +409,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       }
       (givenHandler as (...a: any[]) => void)(...args);
     }) as TaggedEventHandler;
-    let wrapped: TaggedEventHandler = send;
-    if (isValidDebounce(handlerThrottle)) {
-      wrapped = throttleHandler(wrapped, handlerThrottle as number);
-    }
-    if (isValidDebounce(handlerDebounce)) {
-      wrapped = debounceHandler(wrapped, handlerDebounce as number);
-    }
+    const wrapped = rateLimit(name, send, handlerThrottle, handlerDebounce);
 
     props[name] = (event: TargetedEvent<any>) => {
       // Until it is sent (possibly debounced or throttled) the server
-- 
2.43.0


From ca8fece2f5af77e2ee6877fc227bb2f15c7029fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 66/97] fix: preventDefault and stopPropagation apply to
 throttled and debounced events as well

---
 src/js/packages/@reactpy/client/src/components.tsx | 11 ++++++++++-
 src/js/packages/@reactpy/client/src/handler.ts     |  2 ++
 src/js/packages/@reactpy/client/src/vdom.tsx       | 13 ++++++++++---
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 01d3f55..738382e 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -10,6 +10,7 @@ import {
 import { useContext, useEffect, useRef, useState } from "preact/hooks";
 import {
   HANDLER_DEBOUNCE,
+  HANDLER_FLAGS,
   HANDLER_MARKER,
   HANDLER_THROTTLE,
   isValidDebounce,
@@ -255,7 +256,12 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
     }
     const throttle = handler[HANDLER_THROTTLE];
     if (isValidDebounce(throttle)) {
-      attrs[name] = rateLimit(name, handler, throttle as number);
+      const limited = rateLimit(name, handler, throttle as number);
+      attrs[name] = (event: Event) => {
+        // every event, and before the browser goes on with it
+        handler[HANDLER_FLAGS]?.(event);
+        limited(event);
+      };
     }
   }
   // Use createElement here to avoid warning about variable numbers of children not
@@ -416,6 +422,9 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       // cannot account for this event, whatever it acknowledges.
       unsentEvents.current.add(name);
 
+      // Even if it is never sent: the browser won't wait for it
+      givenHandler[HANDLER_FLAGS]?.(event);
+
       // ``onKeyPress`` fires before the DOM has been updated with
       // the new keystroke — ``event.target.value`` is the value
       // BEFORE the character was added. We deliberately do NOT
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index dc6db59..4ebce97 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -5,6 +5,7 @@
 export const HANDLER_MARKER = "isHandler" as const;
 export const HANDLER_DEBOUNCE = "debounce" as const;
 export const HANDLER_THROTTLE = "throttle" as const;
+export const HANDLER_FLAGS = "applyFlags" as const;
 
 export type HandlerMarker = typeof HANDLER_MARKER;
 export type HandlerDebounce = typeof HANDLER_DEBOUNCE;
@@ -14,6 +15,7 @@ export type TaggedEventHandler = ((event: Event) => void) & {
   [HANDLER_MARKER]: true;
   [HANDLER_DEBOUNCE]?: number;
   [HANDLER_THROTTLE]?: number;
+  [HANDLER_FLAGS]?: (...args: any[]) => void;
 };
 
 /**
diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index deb5e6c..283c8a1 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -2,6 +2,7 @@ import eventToObject from "event-to-object";
 import { Fragment } from "preact";
 import {
   HANDLER_DEBOUNCE,
+  HANDLER_FLAGS,
   HANDLER_MARKER,
   HANDLER_THROTTLE,
   isValidDebounce,
@@ -230,15 +231,20 @@ function createEventHandler(
   // behavior (no wrapper) is to use a per-handler counter starting
   // at 0.
   let outgoingSeq = 0;
-  const eventHandler = function (...args: any[]) {
-    const data = Array.from(args).map((value) => {
-      const event = value as Event;
+  const applyFlags = (...args: any[]) => {
+    for (const event of args) {
       if (preventDefault) {
         event.preventDefault();
       }
       if (stopPropagation) {
         event.stopPropagation();
       }
+    }
+  };
+  const eventHandler = function (...args: any[]) {
+    applyFlags(...args);
+    const data = Array.from(args).map((value) => {
+      const event = value as Event;
 
       // Convert JavaScript objects to plain JSON, if needed
       if (typeof event === "object") {
@@ -254,6 +260,7 @@ function createEventHandler(
     _reactpy_set_seq?: (n: number) => void;
   };
   eventHandler[HANDLER_MARKER] = true;
+  eventHandler[HANDLER_FLAGS] = applyFlags;
   eventHandler._reactpy_peek_seq = (): number => outgoingSeq;
   eventHandler._reactpy_set_seq = (n: number): void => {
     outgoingSeq = n;
-- 
2.43.0


From 589a300742e0e8143ca62439ae930cb15b030aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 67/97] fix: the fallback of a JavaScript component is
 displayed until its module is loaded

---
 .../@reactpy/client/src/components.tsx        | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 738382e..96ff162 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -502,26 +502,29 @@ function ScriptElement({ model }: { model: ReactPyVdom }) {
 
 function ImportedElement({ model }: { model: ReactPyVdom }) {
   const importSourceVdom = model.importSource;
-  const importSourceRef = useImportSource(model);
+  const [importSourceRef, isLoaded] = useImportSource(model);
 
   if (!importSourceVdom) {
     return null;
   }
 
+  // display a fallback, if one was given, until there's something else to display
   const importSourceFallback = importSourceVdom.fallback;
-
-  if (!importSourceVdom) {
-    // display a fallback if one was given
-    if (!importSourceFallback) {
-      return null;
-    } else if (typeof importSourceFallback === "string") {
-      return <span>{importSourceFallback}</span>;
+  let fallbackElement: JSX.Element | null = null;
+  if (!isLoaded && importSourceFallback) {
+    if (typeof importSourceFallback === "string") {
+      fallbackElement = <span>{importSourceFallback}</span>;
     } else {
-      return <StandardElement model={importSourceFallback} />;
+      fallbackElement = <StandardElement model={importSourceFallback} />;
     }
-  } else {
-    return <span ref={importSourceRef} />;
   }
+
+  return (
+    <Fragment>
+      <span key="import-source" ref={importSourceRef} />
+      {fallbackElement}
+    </Fragment>
+  );
 }
 
 function useForceUpdate() {
@@ -529,7 +532,9 @@ function useForceUpdate() {
   return () => setState((old) => !old);
 }
 
-function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
+function useImportSource(
+  model: ReactPyVdom,
+): [MutableRefObject<any>, boolean] {
   const vdomImportSource = model.importSource;
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
   const mountPoint = useRef<HTMLElement>(null);
@@ -577,7 +582,9 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
     }
   });
 
-  return mountPoint;
+  const isLoaded =
+    binding !== null && bindingSource.current === vdomImportSourceJsonString;
+  return [mountPoint, isLoaded];
 }
 
 const SPECIAL_ELEMENTS = {
-- 
2.43.0


From daa9c0d4a41238f513a82c762bb7c11846b2d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 68/97] fix: what a keyed component displays moves along with
 it in the browser

---
 src/reactpy/core/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d9809a3..cf2a9c8 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -441,6 +441,10 @@ class Layout(BaseLayout):
         finally:
             await life_cycle_hook.affect_component_did_render()
 
+        if isinstance(component.key, (str, int, float)):
+            # the browser has to move what's displayed along with the component
+            new_state.model.current["attributes"] = {"key": component.key}
+
         return new_state
 
     async def _render_model(
-- 
2.43.0


From 57ecb144e15ba2e28a803f085acda4a0dac0c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 69/97] fix: a nested JavaScript component updated while its
 module is loading is bound once

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 283c8a1..4a58bc0 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -367,15 +367,13 @@ class ReactPyChild extends HTMLElement {
 
       try {
         const bind = await loadImportSource(newImportSource, this._client);
+        // there may be a binding if it was updated while the module was loading
         if (
           this.isConnected &&
+          !this.binding &&
           this.currentImportSource &&
           isImportSourceEqual(this.currentImportSource, newImportSource)
         ) {
-          const oldBinding = this.binding as ImportSourceBinding | null;
-          if (oldBinding) {
-            oldBinding.unmount();
-          }
           this.binding = bind(this.mountPoint);
           if (this.binding) {
             this.binding.render(this._model);
-- 
2.43.0


From 2a31ae435ef0de4f42b1ac74764448bfbf936673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 70/97] fix: a JavaScript component that gets back to an
 earlier source is not rendered with its old binding

---
 src/js/packages/@reactpy/client/src/components.tsx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 96ff162..1df8fe4 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -558,6 +558,8 @@ function useImportSource(
 
     return () => {
       unmounted = true;
+      // this binding is over, even if its source comes back
+      bindingSource.current = null;
       if (
         currentBinding &&
         vdomImportSource &&
-- 
2.43.0


From 74b5e6d384a5d757b3876e6547fa80110f4760b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 71/97] fix: texts of PyScript components keep their value,
 whatever looks like a comment, docstring, tab or indentation within

---
 src/reactpy/executors/pyscript/utils.py | 35 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 2b72262..81b4e06 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -1,6 +1,7 @@
 # ruff: noqa: S603
 from __future__ import annotations
 
+import ast
 import base64
 import csv
 import functools
@@ -37,17 +38,25 @@ _WHEEL_FILENAME_PART_COUNT = 5
 
 
 def minify_python(source: str) -> str:
-    """Minify Python source code."""
-    # Remove comments
-    source = re.sub(r"#.*\n", "\n", source)
-    # Remove docstrings
-    source = re.sub(r'\n\s*""".*?"""', "", source, flags=re.DOTALL)
-    # Remove excess newlines
-    source = re.sub(r"\n+", "\n", source)
-    # Remove empty lines
-    source = re.sub(r"\s+\n", "\n", source)
-    # Remove leading and trailing whitespace
-    return source.strip()
+    """Minify Python source code.
+
+    Removes comments, docstrings and empty lines. Strings end up on a single line.
+    """
+    try:
+        tree = ast.parse(source)
+        for node in ast.walk(tree):
+            if not isinstance(
+                node, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
+            ):
+                continue
+            while ast.get_docstring(node, clean=False) is not None:
+                del node.body[0]
+            if not node.body and not isinstance(node, ast.Module):
+                node.body.append(ast.Pass())
+        return ast.unparse(tree)
+    except (SyntaxError, ValueError):
+        # Leave it to the browser to complain about invalid code
+        return source.strip()
 
 
 PYSCRIPT_COMPONENT_TEMPLATE = minify_python(
@@ -76,7 +85,7 @@ def pyscript_executor_html(
 
     # Prepare the PyScript code block
     user_code = "\n".join(all_file_contents)  # Combine all user code
-    user_code = user_code.replace("\t", "    ")  # Normalize the text
+    user_code = minify_python(user_code)  # Normalize the text
     user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
@@ -86,7 +95,7 @@ def pyscript_executor_html(
         )
 
     # Insert the user code into the PyScript template
-    return executor.replace("    def root(): ...", user_code)
+    return executor.replace("    def root():\n        ...", user_code)
 
 
 def pyscript_component_html(
-- 
2.43.0


From b43a0e28ae7c5ec2bc7092c3e317533ecf923338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 72/97] fix: PyScript root components can be annotated with
 what they return

---
 src/reactpy/executors/pyscript/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 81b4e06..3d3abd3 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -89,7 +89,7 @@ def pyscript_executor_html(
     user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
-    if f"def {root}():" not in user_code:
+    if f"def {root}()" not in user_code:
         raise ValueError(
             f"Could not find the root component function '{root}' in your PyScript file(s)."
         )
-- 
2.43.0


From 5ea5d7a1754c1ab6dfe6cbe22408595d45e6c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 73/97] fix: texts such as "</script>" do not end the script of
 a PyScript component

---
 src/reactpy/executors/pyscript/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 3d3abd3..56db6fa 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -95,7 +95,10 @@ def pyscript_executor_html(
         )
 
     # Insert the user code into the PyScript template
-    return executor.replace("    def root():\n        ...", user_code)
+    executor = executor.replace("    def root():\n        ...", user_code)
+
+    # Sequences with a meaning in HTML scripts can only occur within strings
+    return executor.replace("</", "<\\x2f").replace("<!--", "<\\x21--")
 
 
 def pyscript_component_html(
-- 
2.43.0


From d7d6583912a8ac1c8eaf075607b6036cf032ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 74/97] fix: PyScript settings may contain quotes and
 ampersands

---
 src/reactpy/executors/pyscript/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 56db6fa..65be4fa 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -125,6 +125,7 @@ def pyscript_setup_html(
     """Renders the PyScript setup code."""
     hide_pyscript_debugger = f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript-hide-debug.css" />'
     pyscript_config = extend_pyscript_config(extra_py, extra_js, config)
+    pyscript_config = pyscript_config.replace("&", "&amp;").replace("'", "&#39;")
 
     return (
         f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript/core.css" />'
-- 
2.43.0


From 3f891d140d74efd3f5a165282459dc318591c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 75/97] fix: attributes of elements in PyScript components that
 are False or None are absent, and React's names and styles become HTML's

---
 src/reactpy/executors/pyscript/layout_handler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 1a49c75..3e439b7 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -8,6 +8,7 @@ from pyodide.ffi.wrappers import add_event_listener
 from pyscript.js_modules import morphdom
 
 from reactpy.core.layout import Layout
+from reactpy.utils import _is_absent_html_attribute, _react_attribute_to_html
 
 
 class ReactPyLayoutHandler:
@@ -67,13 +68,8 @@ class ReactPyLayoutHandler:
 
             # Set the element's HTML attributes
             for key, value in attributes.items():
-                if key == "style":
-                    for style_key, style_value in value.items():
-                        setattr(element.style, style_key, style_value)
-                elif key == "className":
-                    element.className = value
-                else:
-                    element.setAttribute(key, value)
+                if key != "key" and not _is_absent_html_attribute(key, value):
+                    element.setAttribute(*_react_attribute_to_html(key, value))
 
             # Add event handlers to the element
             for event_name, event_handler_model in model.get(
-- 
2.43.0


From e00e4b22b2b91744bdd26015bd4fee22ea35b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 76/97] fix: preventDefault and stopPropagation are applied to
 events of PyScript components

---
 src/reactpy/executors/pyscript/layout_handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 3e439b7..08cc870 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -97,6 +97,12 @@ class ReactPyLayoutHandler:
         target = event_handler_model["target"]
 
         def event_handler(*args):
+            # These have no effect once the browser is done with the event
+            if event_handler_model.get("preventDefault"):
+                args[0].preventDefault()
+            if event_handler_model.get("stopPropagation"):
+                args[0].stopPropagation()
+
             # When the event is triggered, deliver the event to the `Layout` within a background task
             task = asyncio.create_task(
                 layout.deliver({"type": "layout-event", "target": target, "data": args})
-- 
2.43.0


From 9bfb3f4c7a60f138cbbd1384fbbf7e87311a7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 77/97] fix: PyScript components that were removed from the
 page end

---
 .../executors/pyscript/layout_handler.py       | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 08cc870..15ca92e 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -119,33 +119,33 @@ class ReactPyLayoutHandler:
         add_event_listener(element, event_name, event_handler)
 
     @staticmethod
-    def delete_old_workspaces():
+    def delete_old_workspaces(namespace):
         """To prevent memory leaks, we must delete all user generated Python code when
         it is no longer in use (removed from the page). To do this, we compare what
         UUIDs exist on the DOM, versus what UUIDs exist within the PyScript global
-        interpreter."""
+        interpreter, which are those of the scripts within the page."""
         # Find all PyScript workspaces that are still on the page
         dom_workspaces = js.document.querySelectorAll(".pyscript")
         dom_uuids = {element.dataset.uuid for element in dom_workspaces}
         python_uuids = {
             value.split("_")[-1]
-            for value in globals()
+            for value in namespace
             if value.startswith("user_workspace_")
         }
 
         # Delete any workspaces that are no longer in use
         for uuid in python_uuids - dom_uuids:
             task_name = f"task_{uuid}"
-            if task_name in globals():
-                task: asyncio.Task = globals()[task_name]
+            if task_name in namespace:
+                task: asyncio.Task = namespace[task_name]
                 task.cancel()
-                del globals()[task_name]
+                del namespace[task_name]
             else:
                 logging.error("Could not auto delete PyScript task %s", task_name)
 
             workspace_name = f"user_workspace_{uuid}"
-            if workspace_name in globals():
-                del globals()[workspace_name]
+            if workspace_name in namespace:
+                del namespace[workspace_name]
             else:
                 logging.error(
                     "Could not auto delete PyScript workspace %s", workspace_name
@@ -153,7 +153,7 @@ class ReactPyLayoutHandler:
 
     async def run(self, workspace_function):
         """Run the layout handler. This function is main executor for all user generated code."""
-        self.delete_old_workspaces()
+        self.delete_old_workspaces(workspace_function.__globals__)
         root_model: dict = {}
 
         async with Layout(workspace_function()) as root_layout:
-- 
2.43.0


From 5ccf828af7a5897071bd948501bf702748c00295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 78/97] fix: selections and forms reach event handlers as
 elements, not as lists of their options and fields

---
 src/js/packages/event-to-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index f6aebe6..cac6e6c 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -116,7 +116,9 @@ function deepCloneClass(
       (typeof x?.length === "number" &&
         typeof x[Symbol.iterator] === "function" &&
         !Object.prototype.toString.call(x).includes("Map") &&
-        !(x instanceof CSSStyleDeclaration))
+        !(x instanceof CSSStyleDeclaration) &&
+        // Forms and selections can be iterated, but are elements
+        !(typeof Node !== "undefined" && x instanceof Node))
     ) {
       return classToArray(x, maxDepth, visited);
     }
-- 
2.43.0


From 5b6e1d04dd9bd95e00e71535f73a5a5cf56d2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 79/97] fix: an element with a property that cannot be read is
 not left out of events

---
 src/js/packages/event-to-object/src/index.ts | 39 ++++++++++++--------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index cac6e6c..a7b4c35 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -199,12 +199,16 @@ function classToObject(
     "dataset" in x &&
     !Object.prototype.hasOwnProperty.call(result, "dataset")
   ) {
-    const dataset = x["dataset"];
-    if (!shouldIgnoreValue(dataset, "dataset", x)) {
-      const converted = deepCloneClass(dataset, maxDepth, visited);
-      if (converted !== maxDepthSignal) {
-        result["dataset"] = converted;
+    try {
+      const dataset = x["dataset"];
+      if (!shouldIgnoreValue(dataset, "dataset", x)) {
+        const converted = deepCloneClass(dataset, maxDepth, visited);
+        if (converted !== maxDepthSignal) {
+          result["dataset"] = converted;
+        }
       }
+    } catch {
+      // Skip what cannot be read
     }
   }
 
@@ -217,18 +221,23 @@ function classToObject(
       prop in x &&
       !Object.prototype.hasOwnProperty.call(result, prop)
     ) {
-      const val = x[prop];
-      if (!shouldIgnoreValue(val, prop, x)) {
-        if (typeof val === "object") {
-          // Ensure files have enough depth to be serialized
-          const propDepth = prop === "files" ? Math.max(maxDepth, 3) : maxDepth;
-          const converted = deepCloneClass(val, propDepth, visited);
-          if (converted !== maxDepthSignal) {
-            result[prop] = converted;
+      try {
+        const val = x[prop];
+        if (!shouldIgnoreValue(val, prop, x)) {
+          if (typeof val === "object") {
+            // Ensure files have enough depth to be serialized
+            const propDepth =
+              prop === "files" ? Math.max(maxDepth, 3) : maxDepth;
+            const converted = deepCloneClass(val, propDepth, visited);
+            if (converted !== maxDepthSignal) {
+              result[prop] = converted;
+            }
+          } else {
+            result[prop] = val;
           }
-        } else {
-          result[prop] = val;
         }
+      } catch {
+        // Skip what cannot be read
       }
     }
   }
-- 
2.43.0


From be93b4413014640df49cc0a1bda70657e08228e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 80/97] fix: data attributes and form fields of any name reach
 event handlers

---
 src/js/packages/event-to-object/src/index.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index a7b4c35..78bbbce 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -257,7 +257,7 @@ function classToObject(
       if (
         element.name &&
         !Object.prototype.hasOwnProperty.call(result, element.name) &&
-        !shouldIgnoreValue(element, element.name, x)
+        !shouldIgnoreValue(element)
       ) {
         if (typeof element === "object") {
           const converted = deepCloneClass(element, maxDepth, visited);
@@ -282,6 +282,11 @@ function shouldIgnoreValue(
   keyName: string = "",
   parent: any = undefined,
 ): boolean {
+  // Names within a dataset are up to the user
+  if (typeof DOMStringMap !== "undefined" && parent instanceof DOMStringMap) {
+    return value === null || value === undefined;
+  }
+
   return (
     // Useless data
     value === null ||
-- 
2.43.0


From f11832d3dd0e55078643c3ec78a838666c39cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 81/97] fix: the selection of an event does not contain a sign
 of its depth

---
 src/js/packages/event-to-object/src/index.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 78bbbce..5cd8bd8 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -68,15 +68,15 @@ function serializeSelection(
   if (!selection) {
     return null;
   }
+  const serializeNode = (node: any) => {
+    const converted = node ? deepCloneClass(node, maxDepth, visited) : null;
+    return converted === maxDepthSignal ? null : converted;
+  };
   return {
     type: selection.type,
-    anchorNode: selection.anchorNode
-      ? deepCloneClass(selection.anchorNode, maxDepth, visited)
-      : null,
+    anchorNode: serializeNode(selection.anchorNode),
     anchorOffset: selection.anchorOffset,
-    focusNode: selection.focusNode
-      ? deepCloneClass(selection.focusNode, maxDepth, visited)
-      : null,
+    focusNode: serializeNode(selection.focusNode),
     focusOffset: selection.focusOffset,
     isCollapsed: selection.isCollapsed,
     rangeCount: selection.rangeCount,
-- 
2.43.0


From 0771b7f8b6cfedad00bf7d18ffe3a413146bff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 82/97] fix: rewriting code replaces exactly the calls that
 change

Calls after another one on the same line were not rewritten, comments after
something else on their line left a file that is not Python, indentation by
tabs, offsets in lines with non-ASCII characters, code before a call, strings
of several lines and decorators of async functions were damaged.
---
 src/reactpy/_console/ast_utils.py | 155 +++++++++++++++++-------------
 1 file changed, 88 insertions(+), 67 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c0ce6b2..de8f7cc 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -2,12 +2,17 @@
 from __future__ import annotations
 
 import ast
+import sys
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
+from io import StringIO
 from pathlib import Path
-from textwrap import indent
 from tokenize import COMMENT as COMMENT_TOKEN
-from tokenize import generate_tokens
+from tokenize import DEDENT as DEDENT_TOKEN
+from tokenize import INDENT as INDENT_TOKEN
+from tokenize import NEWLINE as NEWLINE_TOKEN
+from tokenize import NL as NL_TOKEN
+from tokenize import TokenInfo, generate_tokens
 from typing import Any
 
 import click
@@ -23,69 +28,48 @@ def rewrite_changed_nodes(
 ) -> str:
     ast.fix_missing_locations(tree)
 
-    lines = source.split("\n")
-
-    # find closest parent nodes that should be re-written
-    nodes_to_unparse: list[ast.AST] = []
-    for change in changed:
-        node_lineage = [change.node, *change.parents]
-        for i in range(len(node_lineage) - 1):
-            current_node, next_node = node_lineage[i : i + 2]
-            if (
-                not hasattr(next_node, "lineno")
-                or next_node.lineno < change.node.lineno
-                or isinstance(next_node, (ast.ClassDef, ast.FunctionDef))
-            ):
-                nodes_to_unparse.append(current_node)
-                break
-        else:  # nocov
-            msg = "Failed to change code"
-            raise RuntimeError(msg)
-
-    # check if an nodes to rewrite contain each other, pick outermost nodes
-    current_outermost_node, *sorted_nodes_to_unparse = sorted(
-        nodes_to_unparse, key=lambda n: n.lineno
-    )
-    outermost_nodes_to_unparse = [current_outermost_node]
-    for node in sorted_nodes_to_unparse:
-        if (
-            not current_outermost_node.end_lineno
-            or node.lineno > current_outermost_node.end_lineno
-        ):
-            current_outermost_node = node
-            outermost_nodes_to_unparse.append(node)
-
-    moved_comment_lines_from_end: list[int] = []
-    # now actually rewrite these nodes (in reverse to avoid changes earlier in file)
-    for node in reversed(outermost_nodes_to_unparse):
-        # make a best effort to preserve any comments that we're going to overwrite
-        comments = _find_comments(lines[node.lineno - 1 : node.end_lineno])
-
+    lines: list[Any] = list(source.split("\n"))
+    tokens = list(generate_tokens(StringIO(source).readline))
+    moved_comments: dict[int, list[str]] = {}
+
+    # rewrite the outermost nodes (in reverse to avoid changes earlier in file)
+    for node in sorted(
+        _find_outermost_nodes(changed),
+        key=lambda n: (n.lineno, n.col_offset),
+        reverse=True,
+    ):
+        first, last = node.lineno - 1, node.end_lineno - 1
         # there may be some content just before and after the content we're re-writing
-        before_replacement = lines[node.lineno - 1][: node.col_offset].lstrip()
-
-        after_replacement = (
-            lines[node.end_lineno - 1][node.end_col_offset :].strip()
-            if node.end_lineno is not None and node.end_col_offset is not None
-            else ""
-        )
-
-        replacement = indent(
-            before_replacement
-            + "\n".join([*comments, ast.unparse(node)])
-            + after_replacement,
-            " " * (node.col_offset - len(before_replacement)),
-        )
-
-        lines[node.lineno - 1 : node.end_lineno or node.lineno] = [replacement]
+        before, _ = _split_line(lines[first], node.col_offset)
+        overwritten, after = _split_line(lines[last], node.end_col_offset)
 
+        # make a best effort to preserve any comments that we're going to overwrite
+        start, end = (node.lineno, len(before)), (node.end_lineno, len(overwritten))
+        comments = [
+            token.string
+            for token in tokens
+            if token.type == COMMENT_TOKEN and start <= token.start < end
+        ]
         if comments:
-            moved_comment_lines_from_end.append(len(lines) - node.lineno)
+            index = _find_line_for_comments(lines, tokens, first, before)
+            moved_comments[index] = comments + moved_comments.get(index, [])
 
-    for lineno_from_end in sorted(set(moved_comment_lines_from_end)):
-        click.echo(f"Moved comments to {file}:{len(lines) - lineno_from_end}")
+        # keep the number of lines, so that the location of earlier nodes stays valid
+        lines[first : last + 1] = [
+            before + ast.unparse(node) + after,
+            *([None] * (last - first)),
+        ]
 
-    return "\n".join(lines)
+    new = ""
+    for index, line in enumerate(lines):
+        if index in moved_comments:
+            click.echo(f"Moved comments to {file}:{new.count(chr(10)) + 1}")
+            indentation = line[: len(line) - len(line.lstrip())]
+            new += "".join(f"{indentation}{c}\n" for c in moved_comments[index])
+        if line is not None:
+            new += f"{line}\n"
+
+    return new[:-1]
 
 
 @dataclass
@@ -169,13 +153,50 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
-def _find_comments(lines: list[str]) -> list[str]:
-    iter_lines = iter(lines)
-    return [
-        token
-        for token_type, token, _, _, _ in generate_tokens(lambda: next(iter_lines))
-        if token_type == COMMENT_TOKEN
-    ]
+def _find_outermost_nodes(changed: list[ChangedNode]) -> Iterator[ast.AST]:
+    changed_nodes = {change.node for change in changed}
+    found: set[ast.AST] = set()
+    for change in changed:
+        if not changed_nodes.intersection(change.parents):
+            node = change.node
+            if sys.version_info < (3, 12):  # nocov
+                # the locations of nodes within an f-string are not known
+                for parent in change.parents:
+                    if isinstance(parent, ast.JoinedStr):
+                        node = parent
+            if node not in found:
+                found.add(node)
+                yield node
+
+
+def _split_line(line: str, offset: int) -> tuple[str, str]:
+    """Split a line at an offset given by the AST, which counts the bytes of UTF-8"""
+    encoded = line.encode("utf-8")
+    return encoded[:offset].decode("utf-8"), encoded[offset:].decode("utf-8")
+
+
+def _find_line_for_comments(
+    lines: list[Any], tokens: list[TokenInfo], index: int, before: str
+) -> int:
+    """Find the closest line above which comments of a rewritten node can be placed"""
+    if not before.strip() and not (index and lines[index - 1].endswith("\\")):
+        return index
+
+    # otherwise, this is the first line of the statement
+    first = None
+    for token in tokens:
+        if token.type == NEWLINE_TOKEN:
+            first = None
+        elif first is None and token.type not in (
+            COMMENT_TOKEN,
+            INDENT_TOKEN,
+            DEDENT_TOKEN,
+            NL_TOKEN,
+        ):
+            first = token.start[0] - 1
+        if token.start[0] - 1 >= index and first is not None:
+            break
+    return index if first is None else first
 
 
 def _walk_with_parent(
-- 
2.43.0


From 69a5fb6cd3a48fb2ceb00bfd2869435be6549a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 83/97] fix: bare names are those of elements only if there is
 such an element

Every other function was taken for an element, since there are elements of
any name, and its arguments were rewritten.
---
 src/reactpy/_console/ast_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index de8f7cc..756df93 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -19,6 +19,9 @@ import click
 
 from reactpy import html
 
+# any other name might be one of something else than an element
+_STANDARD_ELEMENTS = frozenset(type(html).__annotations__)
+
 
 def rewrite_changed_nodes(
     file: Path,
@@ -92,7 +95,9 @@ def find_element_constructor_usages(
             or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")
         ):
             name = func.attr
-        elif isinstance(func, ast.Name):
+        elif isinstance(func, ast.Name) and (
+            func.id == "vdom" or func.id in _STANDARD_ELEMENTS
+        ):
             name = func.id
         else:
             continue
@@ -116,7 +121,7 @@ def find_element_constructor_usages(
                     continue
             elif len(node.args) >= 2:  # noqa: PLR2004
                 maybe_attr_dict_node = node.args[1]
-        elif hasattr(html, name):
+        else:
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
                 if add_props:
-- 
2.43.0


From e811c1a4242f6ab80d8a1dfd91fca1d1aae0e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 84/97] fix: calls without keys are left as they are within
 calls with keys

They were given an empty dictionary of attributes, or an additional argument.
---
 src/reactpy/_console/ast_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 756df93..e22d027 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -103,19 +103,21 @@ def find_element_constructor_usages(
             continue
 
         maybe_attr_dict_node: Any | None = None
+        # there is nothing to add to calls that do not change
+        add_props_here = add_props and any(kw.arg == "key" for kw in node.keywords)
 
         if name == "vdom":
             if len(node.args) == 0:
                 continue
             elif len(node.args) == 1:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props_here:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[1], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props_here:
                     node.args.insert(1, maybe_attr_dict_node)
                 else:
                     continue
@@ -124,13 +126,13 @@ def find_element_constructor_usages(
         else:
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props_here:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props_here:
                     node.args.insert(0, maybe_attr_dict_node)
                 else:
                     continue
-- 
2.43.0


From 81ae8f52de245194e876368e20b9098364e971a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 85/97] fix: arguments of functions that return styles are not
 renamed

---
 src/reactpy/_console/rewrite_props.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e66b387..0c2d86e 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -72,7 +72,14 @@ def conv_attr_name(name: str) -> str:
 
 def _construct_prop_item(key: str, value: ast.expr) -> tuple[str, ast.expr]:
     """Construct a new prop item with the converted key and possibly modified value"""
-    if key == "style" and isinstance(value, (ast.Dict, ast.Call)):
+    if key == "style" and (
+        isinstance(value, ast.Dict)
+        or (
+            isinstance(value, ast.Call)
+            and isinstance(value.func, ast.Name)
+            and value.func.id == "dict"
+        )
+    ):
         # Create a copy of the value to avoid modifying the original
         new_value = copy(value)
         if _rewrite_props(
-- 
2.43.0


From eb71e6e61c8135136ce7e38f5d03735b253fd8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 86/97] fix: names with hyphens are not snake case

Data attributes and custom properties of CSS were renamed.
---
 src/reactpy/_console/rewrite_props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index 0c2d86e..c2283c9 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -58,8 +58,8 @@ def conv_attr_name(name: str) -> str:
     if name in kwlist:
         return name
 
-    # Return early if the value is not snake_case
-    if "_" not in name:
+    # Return early if the value is not snake_case (e.g. `data-user_id`, `--my_var`)
+    if "_" not in name or "-" in name:
         return name
 
     # Split the string by underscores
-- 
2.43.0


From c0030aa623876ccdc4791a86c6514b35f8be3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 87/97] fix: names of arguments do not become keywords

`dict(class_=...)` became `dict(class=...)`, which is not Python.
---
 src/reactpy/_console/rewrite_props.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index c2283c9..cd35997 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -131,6 +131,8 @@ def _rewrite_props(
             if kw.arg is not None:
                 # Construct the new keyword argument and value
                 kw_arg, kw_value = constructor(kw.arg, kw.value)
+                if kw_arg in kwlist:
+                    kw_arg = kw.arg  # keywords can't be names of arguments
                 if kw_arg != kw.arg or kw_value is not kw.value:
                     did_change = True
                 kw = ast.keyword(arg=kw_arg, value=kw_value)
-- 
2.43.0


From a5040969dd1bde731e47fc07954ca83075095209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 88/97] fix: rewritten files are written in the encoding they
 are read in

---
 src/reactpy/_console/rewrite_keys.py  | 2 +-
 src/reactpy/_console/rewrite_props.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e5ae207..2bf0d88 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -49,7 +49,7 @@ def rewrite_keys(paths: list[str]) -> None:
         for f in [p] if p.is_file() else p.rglob("*.py"):
             result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
             if result is not None:
-                f.write_text(result)
+                f.write_text(result, encoding="utf-8")
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index cd35997..f417619 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -24,7 +24,7 @@ def rewrite_props(paths: list[str]) -> None:
         for f in [p] if p.is_file() else p.rglob("*.py"):
             result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
             if result is not None:
-                f.write_text(result)
+                f.write_text(result, encoding="utf-8")
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
-- 
2.43.0


From 6a54a4ebfba59931cefa9ff56d3a1a54f0ea71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:08 +0000
Subject: [PATCH 89/97] fix: the class of a component's element may contain
 quotes and ampersands

---
 src/reactpy/executors/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 7145541..9d67050 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Iterable
+from html import escape
 from typing import Any
 
 from reactpy._option import Option
@@ -63,7 +64,7 @@ def server_side_component_html(
     element_id: str, class_: str, component_path: str
 ) -> str:
     return (
-        f'<div id="{element_id}" class="{class_}"></div>'
+        f'<div id="{element_id}" class="{escape(class_)}"></div>'
         "<script>"
         'if (!document.querySelector("#reactpy-importmap")) {'
         "   console.debug("
-- 
2.43.0


From 89cbd3465060195b27cfda239ffb15045e37d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:08 +0000
Subject: [PATCH 90/97] fix: settings of zero for reconnecting are not replaced
 by the defaults

Reconnecting could not be turned off (by no retries).
---
 src/js/packages/@reactpy/client/src/mount.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/mount.tsx b/src/js/packages/@reactpy/client/src/mount.tsx
index df42881..ddb9194 100644
--- a/src/js/packages/@reactpy/client/src/mount.tsx
+++ b/src/js/packages/@reactpy/client/src/mount.tsx
@@ -24,10 +24,10 @@ export function mountReactPy(props: MountProps) {
       jsModulesPath: `${window.location.origin}${props.pathPrefix}modules/`,
     },
     reconnectOptions: {
-      interval: props.reconnectInterval || 750,
-      maxInterval: props.reconnectMaxInterval || 60000,
-      maxRetries: props.reconnectMaxRetries || 150,
-      backoffMultiplier: props.reconnectBackoffMultiplier || 1.25,
+      interval: props.reconnectInterval ?? 750,
+      maxInterval: props.reconnectMaxInterval ?? 60000,
+      maxRetries: props.reconnectMaxRetries ?? 150,
+      backoffMultiplier: props.reconnectBackoffMultiplier ?? 1.25,
     },
     mountElement: props.mountElement,
   });
-- 
2.43.0


From d469f165d74ab07a3a049ddfa7e6906cc08915fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:35 +0000
Subject: [PATCH 91/97] fix: events of a new field are not acknowledged by
 those of an earlier one in its place

---
 .../@reactpy/client/src/components.tsx        | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 1df8fe4..2c5eb25 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -276,6 +276,17 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
   );
 }
 
+// Monotonic counter for the outgoing events of all user-input elements
+// (NOT per-handler, and NOT per-element). The wrapper in
+// ``UserInputElement`` installs it onto every handler via
+// ``_reactpy_set_seq`` so the counter survives handler recreation on
+// every server re-render. Each handler has its own per-handler
+// ``outgoingSeq`` (used as the default when no wrapper is installed).
+// It isn't restarted for new elements since their handlers may have the
+// target of one that was displayed before: what the server acknowledges
+// for that one must not be mistaken for an acknowledgement of new events.
+let sharedOutgoingSeq = 0;
+
 function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const client = useContext(ClientContext);
   const props = createAttributes(model, client);
@@ -300,14 +311,6 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const inputRef = useRef<
     HTMLInputElement | HTMLSelectElement | HTMLTextAreaElement | null
   >(null);
-  // Per-element (NOT per-handler) monotonic counter for outgoing
-  // events. The wrapper below installs this counter onto every
-  // handler via ``_reactpy_set_seq`` so the counter survives
-  // handler recreation on every server re-render. Each handler
-  // has its own per-handler ``outgoingSeq`` (used as the default
-  // when no wrapper is installed), but we override it here so the
-  // element owns a single monotonic counter across handlers.
-  const sharedOutgoingSeq = useRef(0);
   // Highest sequence number actually sent. The server's
   // ``_reactpy_ack_seq`` will catch up to this.
   const lastSentSeq = useRef(-1);
@@ -396,8 +399,8 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     const handlerDebounce = givenHandler[HANDLER_DEBOUNCE];
     const handlerThrottle = givenHandler[HANDLER_THROTTLE];
     const send = ((...args: any[]) => {
-      // Use a per-element (shared across all handlers on this
-      // element) monotonic counter for outgoing events. We
+      // Use a shared (across all handlers of all elements)
+      // monotonic counter for outgoing events. We
       // overwrite the handler's own ``outgoingSeq`` with this
       // counter so the wire-format seq number reflects the
       // element-wide sequence. The number is assigned when the
@@ -405,7 +408,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       // one message, and messages must be numbered in the order
       // they are sent.
       unsentEvents.current.delete(name);
-      const seq = sharedOutgoingSeq.current++;
+      const seq = sharedOutgoingSeq++;
       lastSentSeq.current = seq;
       const taggedHandler = givenHandler as TaggedEventHandler & {
         _reactpy_set_seq?: (n: number) => void;
-- 
2.43.0


From 3976c2f2954980cf89b67fa0f126cdbcb888301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:21 +0000
Subject: [PATCH 92/97] fix: fields show the values of a new session after a
 reconnection

---
 src/js/packages/@reactpy/client/src/client.ts     | 14 ++++++++++++++
 .../packages/@reactpy/client/src/components.tsx   | 15 +++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/client.ts b/src/js/packages/@reactpy/client/src/client.ts
index bc0a489..e00e9b4 100644
--- a/src/js/packages/@reactpy/client/src/client.ts
+++ b/src/js/packages/@reactpy/client/src/client.ts
@@ -8,6 +8,8 @@ import type {
 import { createReconnectingWebSocket } from "./websocket";
 
 export abstract class BaseReactPyClient implements ReactPyClientInterface {
+  /** How many connections to the server there have been so far. */
+  connections = 0;
   private readonly handlers: { [key: string]: ((message: any) => void)[] } = {};
   protected readonly ready: Promise<void>;
   private resolveReady: (value: undefined) => void;
@@ -25,6 +27,11 @@ export abstract class BaseReactPyClient implements ReactPyClientInterface {
     };
   }
 
+  /** The number of the connection that transmits what is sent now. */
+  get sendingConnection(): number {
+    return this.connections;
+  }
+
   abstract sendMessage(message: any): void;
   abstract loadModule(moduleName: string): Promise<ReactPyModule>;
 
@@ -71,6 +78,7 @@ export class ReactPyClient
       readyPromise: this.ready,
       ...props.reconnectOptions,
       onOpen: () => {
+        this.connections++;
         while (this.messageQueue.length > 0) {
           this.sendMessage(this.messageQueue.shift());
         }
@@ -79,6 +87,12 @@ export class ReactPyClient
     });
   }
 
+  get sendingConnection(): number {
+    return this.socket.current?.readyState === WebSocket.OPEN
+      ? this.connections
+      : this.connections + 1;
+  }
+
   sendMessage(message: any): void {
     if (
       this.socket.current &&
diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 2c5eb25..6a185e5 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -314,6 +314,9 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // Highest sequence number actually sent. The server's
   // ``_reactpy_ack_seq`` will catch up to this.
   const lastSentSeq = useRef(-1);
+  // The connection that transmits it. Each has a session of its own on the
+  // server, which knows nothing about the events of earlier ones.
+  const lastSentBy = useRef(0);
   // Names of the handlers with an event that is not sent yet because it
   // is debounced or throttled.
   const unsentEvents = useRef(new Set<string>());
@@ -344,7 +347,14 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // most recent keystroke), skip applying so we don't clobber
     // the user's text. This handles the realistic case where the
     // user types faster than the server can ack.
-    if (unsentEvents.current.size > 0 || serverAckSeq < lastSentSeq.current) {
+    //
+    // An event of an earlier connection will never be acknowledged,
+    // and one that waits for the next connection isn't yet.
+    const isAccountedFor =
+      lastSentBy.current < client.connections ||
+      (lastSentBy.current === client.connections &&
+        serverAckSeq >= lastSentSeq.current);
+    if (unsentEvents.current.size > 0 || !isAccountedFor) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -375,7 +385,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       inputRef.current.value = props.value;
     }
     setValue(props.value);
-  }, [props.value, serverAckSeq]);
+  }, [props.value, serverAckSeq, client.connections]);
 
   for (const [name, prop] of Object.entries(props)) {
     if (typeof prop !== "function") {
@@ -410,6 +420,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       unsentEvents.current.delete(name);
       const seq = sharedOutgoingSeq++;
       lastSentSeq.current = seq;
+      lastSentBy.current = client.sendingConnection;
       const taggedHandler = givenHandler as TaggedEventHandler & {
         _reactpy_set_seq?: (n: number) => void;
       };
-- 
2.43.0


From a90bf95a9011ffc45d5fddee3dafff388c09e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 93/97] fix: lists given to event handlers by JavaScript
 components stay lists

---
 src/js/packages/event-to-object/src/index.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 5cd8bd8..6878b10 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -19,6 +19,12 @@ export default function convert(
   // Begin conversion
   const visited = new WeakSet<any>();
   visited.add(classObject);
+
+  // Lists stay lists
+  if (Array.isArray(classObject)) {
+    return classToArray(classObject, maxDepth, visited);
+  }
+
   const convertedObj: { [key: string]: any } = {};
   for (const key in classObject) {
     // Skip keys that cannot be converted
-- 
2.43.0


From 6c39ed023afa9000f0c424df3968f416ada5703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:55 +0000
Subject: [PATCH 94/97] fix: functions which have captured different values are
 not equal

---
 src/reactpy/core/hooks.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 28d30a5..98959cc 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -598,7 +598,7 @@ def _try_to_infer_closure_values(
         return None
 
 
-def strictly_equal(x: Any, y: Any) -> bool:
+def strictly_equal(x: Any, y: Any, _within: tuple[tuple[int, int], ...] = ()) -> bool:
     """Check if two values are identical or, for a limited set or types, equal.
 
     Only the following types are checked for equality rather than identity:
@@ -624,10 +624,13 @@ def strictly_equal(x: Any, y: Any) -> bool:
         and hasattr(x, "__code__")
         and hasattr(y, "__code__")
     ):
+        if x is y or (id(x), id(y)) in _within:
+            return True
+
         if x.__qualname__ != y.__qualname__:
             return False
 
-        return all(
+        same_code = all(
             getattr(x.__code__, attr) == getattr(y.__code__, attr)
             for attr in dir(x.__code__)
             if attr.startswith("co_")
@@ -644,6 +647,17 @@ def strictly_equal(x: Any, y: Any) -> bool:
                 "co_end_col_offset",
             }
         )
+        # functions of the same code differ if they have captured different values
+        captured = _captured_values(x), _captured_values(y)
+        return (
+            same_code
+            and getattr(x, "__self__", None) is getattr(y, "__self__", None)
+            and len(captured[0]) == len(captured[1])
+            and all(
+                strictly_equal(a, b, (*_within, (id(x), id(y))))
+                for a, b in zip(*captured, strict=True)
+            )
+        )
 
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
@@ -654,6 +668,17 @@ def strictly_equal(x: Any, y: Any) -> bool:
     return x is y  # nocov
 
 
+def _captured_values(func: Any) -> list[Any]:
+    """The values, other than global ones, that a function uses"""
+    defaults = getattr(func, "__defaults__", None) or ()
+    keyword_defaults = getattr(func, "__kwdefaults__", None) or {}
+    values = [*defaults, *keyword_defaults.values()]
+    for cell in getattr(func, "__closure__", None) or ():
+        with contextlib.suppress(ValueError):  # not assigned yet
+            values.append(cell.cell_contents)
+    return values
+
+
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
     if cleanup_func.current:
         cleanup_func.current()
-- 
2.43.0


From 9dc19a6026adaf73cce0937b7335447e0faf540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:55 +0000
Subject: [PATCH 95/97] fix: values whose comparison is not true or false can
 be put into states

---
 src/reactpy/core/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 98959cc..3136709 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -662,7 +662,8 @@ def strictly_equal(x: Any, y: Any, _within: tuple[tuple[int, int], ...] = ()) ->
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
         with contextlib.suppress(Exception):
-            return x == y  # type: ignore
+            # some comparisons (e.g. of arrays) are not true or false
+            return bool(x == y)
 
     # Fallback to identity check
     return x is y  # nocov
-- 
2.43.0


From 17cbb12ffe2557c8adb5b9ecee62f0eda9262d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:12 +0000
Subject: [PATCH 96/97] fix: events of inputs without any attributes are
 acknowledged

---
 src/reactpy/core/layout.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index cf2a9c8..f8c2f27 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -564,9 +564,7 @@ class Layout(BaseLayout):
                 max_ack = ack
         if max_ack is None:
             return
-        attrs = new_state.model.current.get("attributes")
-        if not isinstance(attrs, dict):
-            return
+        attrs = new_state.model.current.setdefault("attributes", {})
         # Never let ackSeq leak into the user's attributes (it's not a
         # real DOM attribute). Store it in a dedicated key the client
         # recognizes.
-- 
2.43.0


From 6fb8594c2f6f53079014e33c34cf39d3e6b7c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:42 +0000
Subject: [PATCH 97/97] fix: clean-ups of effects run once, and keep nothing
 from happening, even if they fail

---
 src/reactpy/core/hooks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 3136709..5ee4821 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -682,5 +682,9 @@ def _captured_values(func: Any) -> list[Any]:
 
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
     if cleanup_func.current:
-        cleanup_func.current()
-        cleanup_func.current = None
+        # it's run only once, and keeps nothing else from happening, even if it fails
+        cleanup, cleanup_func.current = cleanup_func.current, None
+        try:
+            cleanup()
+        except Exception:
+            logger.exception("Error in effect clean-up")
-- 
2.43.0

