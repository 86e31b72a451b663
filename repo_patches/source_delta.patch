From c2c305b4e1413fbff413d29a2f85ac1476687fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 01/69] fix: an interrupted task only deactivates its own mimic
 states

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..c37729c 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -531,7 +531,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        for state in list(self._mimic_states_by_task[task]):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From 13d3e0a7849dd214dfcbfa065b630a97d8fe09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 02/69] fix: cancelling an event that triggered at the same
 instant does not crash

---
 src/upstage_des/events.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..d4000ae 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -426,7 +426,9 @@ class MultiEvent(BaseEvent):
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        # The event may have been triggered at this same simulation time.
+        if not self._simpy_event.triggered:
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
@@ -792,6 +794,7 @@ class Event(BaseEvent):
         # yielded on
         self._payload: dict[str, Any] = {}
         self._auto_reset = auto_reset
+        self._cancelled = False
         assert isinstance(self.env, SIM.Environment)
         self._event = SIM.Event(self.env)
 
@@ -849,15 +852,21 @@ class Event(BaseEvent):
         """Reset the event to allow it to be held again."""
         assert isinstance(self.env, SIM.Environment)
         self._event = SIM.Event(self.env)
+        self._cancelled = False
 
     def cancel(self) -> None:
         """Cancel the event.
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
+
+        An event that already succeeded has nothing left to cancel.
         """
+        if self._event.triggered and not self._cancelled:
+            return
         try:
             self._event.defused = True
             self._event.succeed()
+            self._cancelled = True
         except RuntimeError as exc:
             exc.add_note(f"Runtime error when cancelling '{self}'")
             raise exc
-- 
2.43.0


From 266f697e0cd46eb5a06a088911bc937158af57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 03/69] fix: a task can yield a routine after an event that
 returned a value

---
 src/upstage_des/task.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..fda4d99 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -486,10 +486,10 @@ class Task(SettableEnv):
                 while True:
                     if not back_from_interrupt:
                         try:
-                            if return_item is None:
-                                next_event = next(generators[-1])
-                            else:
-                                next_event = generators[-1].send(return_item)
+                            # A sent value is used once, so a routine that
+                            # starts next, or returns nothing, won't reuse it.
+                            to_send, return_item = return_item, None
+                            next_event = generators[-1].send(to_send)
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-- 
2.43.0


From d3c8ec03b5f7cfb5f6449a6e12ab0daf664569f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 04/69] fix: interrupting a task whose process ended at the
 same instant

---
 src/upstage_des/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index fda4d99..ac39a08 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -454,7 +454,8 @@ class Task(SettableEnv):
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
                 next_event.cancel()
             elif isinstance(next_event, Process):
-                next_event.interrupt(cause=interrupt.cause)
+                if next_event.is_alive:
+                    next_event.interrupt(cause=interrupt.cause)
             else:
                 raise SimulationError(f"Bad event passed: {next_event}")
         elif _interrupt_action != InterruptStates.IGNORE:
-- 
2.43.0


From 850823afcc309ec15e4a9ab5629ce36452ad5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 05/69] fix: cancelling a granted but unreceived request
 returns what was granted

---
 src/upstage_des/events.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index d4000ae..3cbed27 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -274,14 +274,25 @@ class BaseRequestEvent(BaseEvent):
         """
         super().__init__(rehearsal_time_to_complete=rehearsal_time_to_complete)
         self._request_event: SIM_REQ_EVTS | None = None
+        self._given_back = False
 
     def cancel(self) -> None:
-        """Cancel the Request."""
+        """Cancel the Request.
+
+        A request that was granted at this same simulation time, but not yet
+        received by the requestor, is given back.
+        """
         if self._request_event is None:
             return
         if not self.is_complete():
-            self._request_event.cancel()
-        # TODO: Do we put it back?
+            if not self._request_event.triggered:
+                self._request_event.cancel()
+            elif not self._given_back:
+                self._given_back = True
+                self._give_back()
+
+    def _give_back(self) -> None:
+        """Undo a request that was granted but will never be received."""
 
     def is_complete(self) -> bool:
         """Test if the request is finished.
@@ -596,6 +607,14 @@ class Get(BaseRequestEvent):
             )
         return self._request_event
 
+    def _give_back(self) -> None:
+        """Put the item or amount back that no one will receive."""
+        assert self._request_event is not None
+        if isinstance(self._request_event, ContainerGet):
+            self.get_location.put(self._request_event.amount)
+        else:
+            self.get_location.put(self._request_event.value)
+
     def get_value(self) -> tyAny:
         """Get the value returned when the request is complete.
 
@@ -688,6 +707,11 @@ class ResourceHold(BaseRequestEvent):
             return 0.0
         raise UpstageError(f"Resource request stage is wrong: {self._stage}")
 
+    def _give_back(self) -> None:
+        """Release a resource that was granted but not received."""
+        if isinstance(self._request_event, Request):
+            self.resource.release(self._request_event)
+
     def as_event(self) -> Request | Release:
         """Create the simpy event for the right state of Resource usage.
 
-- 
2.43.0


From 69e4ccbd863fd5a9f703bef6d51d0bf78ddd9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 06/69] fix: an old expiration does not cancel a later
 reservation

---
 src/upstage_des/resources/reserve.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..7db5dc5 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,7 +72,9 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
+    def _expire_request(
+        self, requester: Any, time: float, reservation: tuple[float, float]
+    ) -> Generator[Event, None, None]:
         """Expire the request after an expiration period or at a specific time.
 
         :param request: the Request namedtuple object
@@ -83,7 +85,9 @@ class ReserveContainer:
 
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        # The requester may have taken or cancelled, then reserved again.
+        if self._queued.get(requester) is reservation:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -91,9 +95,10 @@ class ReserveContainer:
             return False
         elif requester not in self._queued:
             self._level -= quantity
-            self._queued[requester] = (quantity, self._env.now)
+            reservation = (quantity, self._env.now)
+            self._queued[requester] = reservation
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, expiration, reservation)
             return True
         else:
             return False
-- 
2.43.0


From 8432fdd2a04a09785f28e9201bba01c7d875ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 07/69] fix: putting into a ReserveContainer counts reserved
 amounts against capacity

---
 src/upstage_des/resources/reserve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 7db5dc5..685241a 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -126,9 +126,10 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
+        # Reserved amounts still occupy the container until they are taken.
+        new = self._real_level + amount
         if new > self.capacity and not capacity_increase:
             raise ValueError("Adding too much.")
         else:
-            self._level = new
-            self._real_level += amount
+            self._level += amount
+            self._real_level = new
-- 
2.43.0


From 962ae57a592ec02f9292ec4c47941ee28613a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/69] fix: time_until_level uses the current level of a
 ContinuousContainer

---
 src/upstage_des/resources/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..18fe115 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
-- 
2.43.0


From 3c3c086c8365afd007137dde1f6d07c9381c7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 09/69] fix: ContinuousContainer reaches full and empty despite
 float rounding

---
 src/upstage_des/resources/container.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 18fe115..fbc095e 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -336,10 +336,13 @@ class ContinuousContainer:
 
         level = self.level
 
-        check_wait = ((self._capacity if self._rate > 0 else 0.0) - level) / self._rate
+        limit = self._capacity if self._rate > 0 else 0.0
+        check_wait = max(0.0, (limit - level) / self._rate)
+        reached = False
 
         try:
             yield self._env.timeout(check_wait)
+            reached = self._env.active_process is self._checking
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
@@ -347,6 +350,9 @@ class ContinuousContainer:
             to_rem: list[ContinuousGet] | list[ContinuousPut] = []
             rate: float
             self._set_level()
+            if reached:
+                # Rounding can leave the level a hair away from the limit.
+                self._level = limit
             if self._rate < 0:
                 to_rem, rate = self._check_empty()
             elif self._rate > 0:
-- 
2.43.0


From d5efc0857b326e3f72249470e57af2c4303dcabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 10/69] fix: SortedFilterStore hands out falsy items and the
 very item it selected

---
 src/upstage_des/resources/sorted.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..9fbdbe4 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,22 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        # Use the position: items can be falsy, or equal to each other.
+        min_idx: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
         min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        for idx, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
                     if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                        min_idx = idx
                         min_val = val
                 else:
-                    min_item = item
+                    min_idx = idx
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_idx is not None:
+            event.succeed(self.items.pop(min_idx))
         return True
 
 
-- 
2.43.0


From ecc4831aa56a2c7855595694401a9b27bc21a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 11/69] fix: setting an active linear state does not count the
 past change twice

---
 src/upstage_des/state_sharing.py | 15 +++++++++++++++
 src/upstage_des/states.py        | 13 +++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..8877f33 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -4,6 +4,8 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """States that enable sharing between tasks."""
 
+from typing import Any
+
 from upstage_des.actor import Actor
 from upstage_des.base import UpstageError
 from upstage_des.states import ActiveState
@@ -50,6 +52,19 @@ class SharedLinearChangingState(ActiveState[float]):
         )
         self.IGNORE_LOCK: bool = True
 
+    def __set__(self, instance: Actor, value: Any) -> None:
+        """Set the value, from which any active change continues.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (Any): The state's value
+        """
+        self._type_check(value, throw=True)
+        data = instance._active_states.get(self.name)
+        if data is not None and "_last_time" in data:
+            data["_last_time"] = instance.env.now
+        super().__set__(instance, value)
+
     def _active(self, instance: Actor) -> float | None:
         """Return a value to set based on time or some other criteria.
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..3edf87e 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -477,6 +477,19 @@ class LinearChangingState(ActiveState[float]):
     >>>     )
     """
 
+    def __set__(self, instance: "Actor", value: Any) -> None:
+        """Set the value, from which any active change continues.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (Any): The state's value
+        """
+        self._type_check(value, throw=True)
+        data = instance._active_states.get(self.name)
+        if data is not None:
+            data["started_at"] = instance.env.now
+        super().__set__(instance, value)
+
     def _active(self, instance: "Actor") -> float | None:
         """Return a value to set based on time or some other criteria."""
         data = self.get_activity_data(instance)
-- 
2.43.0


From bf5befa44e7450f8bbe96b544b31d7a31480e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 12/69] fix: a rehearsal consumes its own copy of the task
 queue

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index c37729c..9f89d67 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1030,7 +1030,7 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
-- 
2.43.0


From 8e67c4a2ad62254bf61a5cf23dadcba10c54e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 13/69] fix: a failed network rehearsal leaves the running
 network unchanged

---
 src/upstage_des/task_network.py | 60 +++++++++++++++++----------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..ea60045 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -164,35 +164,37 @@ class TaskNetwork:
         # pre-clone the actor to get a hold of the new environment
         new_actor = actor.clone(knowledge=knowledge)
         task_idx = 0
-        while True:
-            if task_idx < num_tasks:
-                task_name = task_name_list[task_idx]
-            elif end_task is None:
-                break
-            else:
-                # Grab the default or one from the queue, clearing the queue to prevent loops
-                task_name = self._next_task_name(task_name, new_actor, clear_queue=True)
-            if end_task is not None and end_task == task_name:
-                break  # pragma: no cover
-            self._current_task_name = task_name
-            self._current_task_inst = self.task_classes[task_name]()
-            self._current_task_inst._set_network_name(self.name)
-            new_actor = self._current_task_inst.rehearse(
-                actor=new_actor,
-                cloned_actor=True,
-            )
-            # The next name should be feasible
-            if task_idx < num_tasks - 1:
-                follow_on = task_name_list[task_idx + 1]
-                if not self.is_feasible(task_name, follow_on):
-                    raise SimulationError(  # pragma: no cover
-                        f"Task {follow_on} not allowed after '{task_name}' in network"
-                    )
-            task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
+        try:
+            while True:
+                if task_idx < num_tasks:
+                    task_name = task_name_list[task_idx]
+                elif end_task is None:
+                    break
+                else:
+                    # Grab the default or one from the queue, clearing the queue to prevent loops
+                    task_name = self._next_task_name(task_name, new_actor, clear_queue=True)
+                if end_task is not None and end_task == task_name:
+                    break  # pragma: no cover
+                self._current_task_name = task_name
+                self._current_task_inst = self.task_classes[task_name]()
+                self._current_task_inst._set_network_name(self.name)
+                new_actor = self._current_task_inst.rehearse(
+                    actor=new_actor,
+                    cloned_actor=True,
+                )
+                # The next name should be feasible
+                if task_idx < num_tasks - 1:
+                    follow_on = task_name_list[task_idx + 1]
+                    if not self.is_feasible(task_name, follow_on):
+                        raise SimulationError(  # pragma: no cover
+                            f"Task {follow_on} not allowed after '{task_name}' in network"
+                        )
+                task_idx += 1
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From 1ae730c430cef3180cd32832485bbe98364aa029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 14/69] fix: key/value states honour record_duplicates

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 3edf87e..9c9b401 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1219,7 +1219,7 @@ class _KeyValueBase(State):
         new = (time, value)
         if name not in instance._state_histories:
             instance._state_histories[name] = [new]
-        elif self._record_duplicates or not _compare(new, instance._state_histories[name][-1]):
+        elif self._record_indiv_dupe or not _compare(new, instance._state_histories[name][-1]):
             instance._state_histories[name].append(new)
 
     def _get_keys_values(self, instance: "Actor") -> list[tuple[str, Any]]:
-- 
2.43.0


From cb8e2823abb4a0db268aec18e7e3304e290552d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 15/69] fix: a dictionary state rejects a badly typed value
 before storing it

---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From 84f02d5e923621d7a446cc5383f0abd513949cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 16/69] fix: inherited fields of a dataclass state can be set

---
 src/upstage_des/state_proxies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..f2084a1 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -107,7 +107,8 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
+        # The fields include those inherited from a base dataclass
+        field_type = self._wrapped.__dataclass_fields__[name].type
         if not isinstance(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
-- 
2.43.0


From 7a7f9b23cbe5d2559a03a6ba1e917cded1412309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 17/69] fix: convert all time units to days and weeks

---
 src/upstage_des/units/convert.py | 34 +++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..5e6220b 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -24,11 +24,35 @@ CONVERSIONS: dict[str, dict[str, float]] = {
         "nmi": 1.0,
         "m": 1 / 0.539957 * 1000,
     },
-    "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
-    "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
-    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    "s": {
+        "hr": 1.0 / (60.0 * 60.0),
+        "min": 1.0 / 60.0,
+        "s": 1.0,
+        "day": 1.0 / (24.0 * 3600.0),
+        "week": 1.0 / (7.0 * 24.0 * 3600.0),
+    },
+    "min": {
+        "hr": 1.0 / 60.0,
+        "min": 1.0,
+        "s": 60.0,
+        "day": 1.0 / (24.0 * 60.0),
+        "week": 1.0 / (7.0 * 24.0 * 60.0),
+    },
+    "hr": {
+        "hr": 1.0,
+        "min": 60.0,
+        "s": (60.0 * 60.0),
+        "day": 1.0 / 24.0,
+        "week": 1.0 / (7.0 * 24.0),
+    },
+    "day": {"day": 1.0, "hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
+    "week": {
+        "week": 1.0,
+        "day": 7.0,
+        "hr": 7.0 * 24,
+        "min": 7.0 * 24 * 60.0,
+        "s": 7.0 * 24 * 3600,
+    },
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
-- 
2.43.0


From fb889837a2314686036572650e75f81db496eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 18/69] fix: a watched state can change at the instant a task
 ends

---
 src/upstage_des/nucleus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..00d7546 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,8 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            # A task can end at the same instant, before its network moves on
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From a6d00ef4a5f50046187f59cb6e25e0db9f38fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 19/69] fix: a data table skips states that have not been set

---
 src/upstage_des/data_utils/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..2be670b 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -101,6 +101,9 @@ def _actor_state_data(
     for state_name, state in actor._state_defs.items():
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
+        if state_name not in actor.__dict__:
+            # An allowed `None` default that hasn't been set yet
+            continue
         _value = actor.__dict__[state_name]
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
-- 
2.43.0


From 8b43eabc7e35dfc12d16558bb84bce44df943273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 20/69] fix: name the location table columns after the recorded
 locations

---
 src/upstage_des/data_utils/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 2be670b..0d37a48 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -258,7 +258,10 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
         data.extend(_data)
+        if _data:
+            cols = _cols
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From f796a9132ff24e16d97d14c4bebdf31d12fb36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 21/69] fix: an actor that was given an actual resource can be
 cloned

---
 src/upstage_des/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 9c9b401..cba6a12 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1093,7 +1093,10 @@ class ResourceState(State, Generic[T]):
             T: The copied store or container
         """
         base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
+        # There is no memory if an actual resource was given, as for a clone
+        memory: dict[str, Any] = instance.__dict__.get(
+            f"_memory_for_{self.name}", {"capacity": copy.capacity}
+        )
         new = base_class(instance.env, **memory)  # type: ignore [arg-type]
         if isinstance(copy, Store) and isinstance(new, Store):
             new.items = list(copy.items)
-- 
2.43.0


From 690d07a4f3f1b0453687513cb974d47f1dcc960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 22/69] fix: an actor with unset or no_init states can be
 cloned

---
 src/upstage_des/actor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9f89d67..ae5f594 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -986,9 +986,15 @@ Args:
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
         states: dict[str, Any] = {}
+        no_init_states: dict[str, Any] = {}
         for state in self.states:
             state_obj = self._state_defs[state]
-            if isinstance(state_obj, ResourceState):
+            if state not in self.__dict__ and state not in self._mimic_states:
+                # An allowed `None` default that hasn't been set yet
+                continue
+            if state_obj._no_init:
+                no_init_states[state] = copy(getattr(self, state))
+            elif isinstance(state_obj, ResourceState):
                 states[state] = state_obj._make_clone(self, getattr(self, state))
             elif isinstance(state_obj, _KeyValueBase):
                 states[state] = state_obj._make_clone(self)
@@ -1005,6 +1011,7 @@ Args:
             **states,
         )
         clone.env = new_env
+        clone.__dict__.update(no_init_states)
 
         ignored_attributes = list(states.keys()) + ["env", "stage"]
 
-- 
2.43.0


From b1e5813ae2d79751fa4d23bb7eb64650931dbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 23/69] fix: a leg that misses a sensor still takes its travel
 time

---
 src/upstage_des/motion/cartesian_model.py | 2 +-
 src/upstage_des/motion/geodetic_model.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..8dc19e5 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -126,7 +126,7 @@ def cartesian_linear_intersection(
         speed,
     )
     if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
+        return [], [], ["BAD", "BAD"], path_time
 
     # filter out intersections beyond the path length
     idxs = sorted(range(len(times)), key=lambda i: times[i])
diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..aa717f3 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,7 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -152,7 +152,7 @@ def analytical_intersection(
     # no intersection
     if point_results is None:
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
     points, distances = point_results
     # get points, times, and types
-- 
2.43.0


From 684f20f6e764609e838cf77c2382ad81447c681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 24/69] fix: a waypoint at the current location does not break
 sensor intersections

---
 src/upstage_des/motion/cartesian_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 8dc19e5..346c558 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -117,6 +117,10 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
+    # without any motion there is nothing to cross
+    if path_dist == 0:
+        return [], [], ["BAD", "BAD"], path_time
+
     sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
     intersections, times = ray_intersection(
         start_tup,
-- 
2.43.0


From 645a514bb9f8956d8a0e4fdb2201ab9010d6c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 25/69] fix: a mover can touch the boundary of a sensor range

---
 src/upstage_des/motion/cartesian_model.py | 10 ++++++----
 src/upstage_des/motion/motion.py          |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 346c558..e8656e0 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -138,12 +138,14 @@ def cartesian_linear_intersection(
     times = [times[i] for i in idxs if times[i] <= path_time]
     type_start = "START_INSIDE" if start_inside else "ENTER"
     type_end = "END_INSIDE" if finish_inside else "EXIT"
+    # A start or finish that is exactly on the boundary is also an intersection,
+    # so only use the exit after a start inside, and the entry before a finish inside.
     if start_inside:
-        inters = [start] + inters
-        times = [0] + times
+        inters = [start] + inters[-1:]
+        times = [0] + times[-1:]
     if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
+        inters = inters[:1] + [finish]
+        times = times[:1] + [path_time]
     if len(inters) != 2:
         raise MotionAndDetectionError(
             f"There should be two intersections, not {len(inters)} ({inters})"
diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..a224c44 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -342,12 +342,13 @@ class SensorMotionManager(UpstageBase):
         if second_kind != "EXIT":
             return None
 
-        end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
+        if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
 
+        # The range can be left at the time it is entered when only touching it
+        end_time_from_now = second_time - self.env.now
         try:
-            yield self.env.timeout(end_time_from_now)
+            yield self.env.timeout(max(0.0, end_time_from_now))
         except Interrupt:
             self._end_notify(mover, sensor, "before exit")
             return None
-- 
2.43.0


From 0d286577727120bf976a401dde68425a6447a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 26/69] fix: a sensor can make a mover undetectable while being
 notified of it

---
 src/upstage_des/motion/motion.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index a224c44..0824682 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -138,7 +138,8 @@ class SensorMotionManager(UpstageBase):
         # in case a new sensor pops up
         if mover in self._events:
             for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
+                # A sensor can stop the mover while it's being notified
+                if proc.is_alive and proc is not self.env.active_process:
                     proc.interrupt()
             del self._events[mover]
 
@@ -155,13 +156,11 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        if mover in self._in_view:
-            for sensor in self._in_view[mover]:
-                # This will cause some old data to stick around, but that's
-                # instead of making new events to clear it out and then having
-                # to end those clearing events if this happens
-                sensor.entity_exited_range(mover)
-            del self._in_view[mover]
+        for sensor in self._in_view.pop(mover, set()):
+            # This will cause some old data to stick around, but that's
+            # instead of making new events to clear it out and then having
+            # to end those clearing events if this happens
+            sensor.entity_exited_range(mover)
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         self._stop_mover(mover, from_not_detectable=True)
@@ -323,6 +322,7 @@ class SensorMotionManager(UpstageBase):
         """
         # times are absolute on input to this method
         notify_time_from_now = first_time - self.env.now
+        path = self._movers.get(mover)
 
         if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
             was_in = self._add_to_view(mover, sensor)
@@ -336,12 +336,17 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
-            sensor.entity_entered_range(mover)
             self._add_to_view(mover, sensor)
+            sensor.entity_entered_range(mover)
 
         if second_kind != "EXIT":
             return None
 
+        # The sensor may have stopped the mover or made it undetectable
+        if self._movers.get(mover) is not path:
+            self._end_notify(mover, sensor, "on entry")
+            return None
+
         if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
 
@@ -353,8 +358,8 @@ class SensorMotionManager(UpstageBase):
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
     def _schedule(
-- 
2.43.0


From a6d8e8abba2d2d3a96c20a73d3fda9f72728b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 27/69] fix: a mover can be undetectable for part of its motion

---
 src/upstage_des/motion/motion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 0824682..d413ff7 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -163,7 +163,11 @@ class SensorMotionManager(UpstageBase):
             sensor.entity_exited_range(mover)
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
+        was_moving = mover in self._movers
         self._stop_mover(mover, from_not_detectable=True)
+        if was_moving:
+            # As when starting while not detectable, the motion will be stopped later
+            self._movers[mover] = (0.0, [], 0.0)
 
     def _mover_became_detectable(self, mover: Actor) -> None:
         """Called via DetectabilityState when a mover becomes detectable.
-- 
2.43.0


From 6e25b6d34295668fd9461f5b72185808a317d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 28/69] fix: interpolate the altitude of a geodetic
 intersection

---
 src/upstage_des/motion/geodetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index aa717f3..abef70a 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -170,7 +170,7 @@ def analytical_intersection(
         types.append("ENTER")
 
         # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
+        alt_1 = start.alt + distances[0] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d1_m = distances[0] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
@@ -195,7 +195,7 @@ def analytical_intersection(
         types.append("EXIT")
 
         # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
+        alt_2 = start.alt + distances[1] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d2_m = distances[1] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-- 
2.43.0


From 4c9a7018b35d6937d62c8f4b59362ffddbcfbf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 29/69] fix: stepped motion can restart after it stopped for a
 lack of events

---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..6f60e6a 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -197,6 +197,8 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    # later motion can start the manager again
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
-- 
2.43.0


From 37c2232c6b646ce5dc3a8cfa20bf612ba9b92c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 30/69] fix: routing gives up on a destination it could not
 reach

---
 src/upstage_des/communications/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..ec77943 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -265,9 +265,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
-        if v in self._network[u]:
-            return dest
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in self._network[u] and v not in ignore_names:
+            return dest
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From e6d924ffaa0592daac1b94d18e0b2250a2dcdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 31/69] fix: an object unknown to the stepped motion manager
 can become detectable

---
 src/upstage_des/motion/stepped_motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 6f60e6a..fa78ac8 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -297,7 +297,8 @@ class SteppedMotionManager(UpstageBase):
         Could be called for any reason; use this feature to alert sensors that
         an object should be considered by that sensor.
         """
-        self._run_detectable(detectable_req=[detectable])
+        if detectable in self._detectables:
+            self._run_detectable(detectable_req=[detectable])
 
     def _start_mover(self, mover: Actor, speed: float, waypoints: list[LOC_TYPES]) -> None:
         # we don't need this method, except to hook into motion states
-- 
2.43.0


From 1dd458458614ba051f0ba48c5e3593f595109d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 32/69] fix: a cloned actor is not tracked as part of the
 simulation

---
 src/upstage_des/actor.py |  2 ++
 src/upstage_des/base.py  | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index ae5f594..5b41534 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -23,6 +23,7 @@ from .base import (
     SettableEnv,
     SimulationError,
     UpstageError,
+    untracked_entities,
 )
 from .data_types import CartesianLocation, GeodeticLocation
 from .states import (
@@ -954,6 +955,7 @@ Args:
         )
         return understudy
 
+    @untracked_entities()
     def clone(
         self,
         new_env: MockEnvironment | None = None,
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..bb401b7 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -6,7 +6,8 @@
 """Base classes and exceptions for UPSTAGE."""
 
 from collections import defaultdict
-from collections.abc import Generator, Iterable
+from collections.abc import Generator, Iterable, Iterator
+from contextlib import contextmanager
 from contextvars import ContextVar, Token
 from dataclasses import dataclass, field
 from math import floor
@@ -452,6 +453,28 @@ class NamedUpstageEntity(UpstageBase):
         cls._entity_groups = entity_groups
 
 
+@contextmanager
+def untracked_entities() -> Iterator[None]:
+    """Forget any entities, actors, or monitors that are created in this context.
+
+    Useful for clones, which are not part of the simulation.
+    """
+    special = SPECIAL_ENTITY_CONTEXT_VAR.get()
+    groups = ENTITY_CONTEXT_VAR.get()
+    n_actors, n_monitored = len(special.actors), len(special.monitored)
+    n_groups = {name: len(group) for name, group in groups.items()}
+    try:
+        yield
+    finally:
+        del special.actors[n_actors:]
+        del special.monitored[n_monitored:]
+        for name in list(groups):
+            if name in n_groups:
+                del groups[name][n_groups[name] :]
+            else:
+                del groups[name]
+
+
 class SettableEnv(UpstageBase):
     """A mixin class for allowing the instance's environment to change."""
 
-- 
2.43.0


From c3011a1cc2ccbb2af99517e69e8767b4444dcf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 33/69] fix: a location can be read right after a leg of no
 length starts

---
 src/upstage_des/states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index cba6a12..a0b5599 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -672,7 +672,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
             path_vector: list[float] = path_data["vectors"][wypt_index]
-            time_frac = time_along / path_time
+            # A leg to the current location takes no time
+            time_frac = time_along / path_time if path_time else 0.0
             direction_amount = [time_frac * v for v in path_vector]
             new_point = _vector_add(path_start._as_array(), direction_amount)
 
@@ -877,7 +878,9 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_dist: float = path_data["distances"][wypt_index]
             path_bearing: float = path_data["bearings"][wypt_index]
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
-            moved_distance = (time_along / path_time) * path_dist
+            # A leg to the current location takes no time
+            time_frac = time_along / path_time if path_time else 0.0
+            moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
                 (path_start.lat, path_start.lon),
                 path_bearing,
@@ -887,7 +890,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # update the altitude
             waypoint: GeodeticLocation = data["waypoints"][wypt_index]
             alt_shift = waypoint.alt - path_start.alt
-            alt_shift *= time_along / path_time
+            alt_shift *= time_frac
             new_alt = path_start.alt + alt_shift
             # make the right kind of location object
             lat, lon = new_point[0], new_point[1]
-- 
2.43.0


From 35e165ef63f03e73432181aff1e655e0f505ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 34/69] fix: geodetic motion follows locations that are given
 in radians

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index a0b5599..39723aa 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -764,8 +764,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -882,7 +882,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             time_frac = time_along / path_time if path_time else 0.0
             moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From 5705d13edfad8a26cfffb10fbd69b2ba439730cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 35/69] fix: a recording class does not mix data from several
 actors

---
 src/upstage_des/actor.py  |  3 +++
 src/upstage_des/states.py | 14 +++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 5b41534..edb02dd 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -147,6 +147,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
         self._debug_log: list[tuple[float | int, str]] = []
 
         self._state_histories: dict[str, list[tuple[float, Any]]] = {}
+        self._recorders: dict[str, Callable[[float, Any], Any]] = {}
 
         # Task Network Nucleus hook-ins
         self._state_listener: TaskNetworkNucleus | None = None
@@ -1032,6 +1033,8 @@ Args:
             if state_name in self._state_histories:
                 clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
 
+        clone._recorders = deepcopy(self._recorders)
+
         clone._knowledge = {}
         for name, data in self._knowledge.items():
             clone._knowledge[name] = copy(data)
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 39723aa..56e397d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -151,15 +151,13 @@ class State(Generic[ST]):
         self._record_duplicates = record_duplicates
         self._change_callbacks: dict[Any, CALLBACK_FUNC] = {}
         self._allow_none_default = allow_none_default
-        self._recording_functions: list[tuple[RECORD_FUNC, str]] = []
+        self._recording_functions: list[RECORD_TUPLES] = []
         if recording_functions is not None:
             for thing, name in recording_functions:
                 if isinstance(thing, type):
                     use = thing()
                     assert isinstance(use, RecordClass)
-                    self._recording_functions.append((use, name))
-                else:
-                    self._recording_functions.append((thing, name))
+                self._recording_functions.append((thing, name))
 
         self._types: tuple[type, ...]
 
@@ -172,7 +170,13 @@ class State(Generic[ST]):
         self.IGNORE_LOCK: bool = False
 
     def _do_record_funcs(self, instance: "Actor", now: float, value: ST) -> None:
-        for func, name in self._recording_functions:
+        for thing, name in self._recording_functions:
+            func = cast(RECORD_FUNC, thing)
+            if isinstance(thing, type):
+                # A recording class can hold data, so each actor needs its own
+                if name not in instance._recorders:
+                    instance._recorders[name] = thing()
+                func = instance._recorders[name]
             result = func(now, value)
             new_append = (now, result)
             if name not in instance._state_histories:
-- 
2.43.0


From f00e2156aed27d734d0b1b898317e9d8449a4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 36/69] fix: a data table skips keys that were not recorded

---
 src/upstage_des/data_utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 0d37a48..ba2f466 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -116,7 +116,9 @@ def _actor_state_data(
         elif is_prefilled:
             for key in _key_list(_value):
                 sname = f"{state_name}.{key}"
-                assert sname in actor._state_histories
+                if sname not in actor._state_histories:
+                    # Keys added on the raw object are not recorded
+                    continue
                 data.extend(
                     _state_history_to_table(
                         name, kind, sname, is_active, actor._state_histories[sname]
-- 
2.43.0


From 60766db19466e9cf173f1c9c95e8f4bd9744012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 37/69] fix: a communication store leaves the given dictionary
 alone

---
 src/upstage_des/states.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 56e397d..b894903 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1179,6 +1179,7 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
+            value = value.copy()
             modes = value.pop("modes")
         super().__set__(instance, value)
         if modes is None:
-- 
2.43.0


From a0b9b59d1ac769c53d0bd27ea4af9c1a369527e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:56 +0000
Subject: [PATCH 38/69] fix: an actor with its own communication modes can be
 cloned

---
 src/upstage_des/states.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index b894903..8a28e78 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1170,6 +1170,7 @@ class CommunicationStore(ResourceState[Store]):
                 raise SimulationError("CommunicationStore must use a Store subclass")
         super().__init__(default=default, valid_types=valid_types)
         self._modes = modes
+        self._clone_modes: dict[Store, set[str]] = {}
 
     @property
     def _modename(self) -> str:
@@ -1181,6 +1182,8 @@ class CommunicationStore(ResourceState[Store]):
         if isinstance(value, dict) and "modes" in value:
             value = value.copy()
             modes = value.pop("modes")
+        elif isinstance(value, Store):
+            modes = self._clone_modes.pop(value, modes)
         super().__set__(instance, value)
         if modes is None:
             raise SimulationError(
@@ -1193,6 +1196,20 @@ class CommunicationStore(ResourceState[Store]):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
+    def _make_clone(self, instance: "Actor", copy: Store) -> Store:
+        """Clone the store, remembering the modes for when the clone is set.
+
+        Args:
+            instance (Actor): The owning actor
+            copy (Store): The store to copy
+
+        Returns:
+            Store: The copied store
+        """
+        new = super()._make_clone(instance, copy)
+        self._clone_modes[new] = instance.__dict__[self._modename]
+        return new
+
 
 class _KeyValueBase(State):
     """A base state for holding key/value pairs.
-- 
2.43.0


From 10f1fc8c5ecb84f2f5f64d517e361d00c9caebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 39/69] fix: an event that completed in a rehearsal says so

---
 src/upstage_des/events.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 3cbed27..390de4e 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -838,7 +838,7 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self._event.processed:
             if self._auto_reset:
                 self.reset()
             else:
@@ -851,7 +851,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete():
+        if self._event.processed:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
@@ -862,7 +862,9 @@ class Event(BaseEvent):
         Returns:
             bool
         """
-        return self._event.processed
+        if self._event.processed:
+            return True
+        return self._rehearsing and self._done_rehearsing
 
     def get_payload(self) -> dict[str, tyAny]:
         """Get any payload from the call to succeed().
-- 
2.43.0


From 31cbbb978d6a0da0e38cba697144cf29a394dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 40/69] fix: parts of nested events are complete after a
 rehearsal

---
 src/upstage_des/events.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 390de4e..1f9c7c5 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -388,6 +388,7 @@ class MultiEvent(BaseEvent):
                     UserWarning,
                 )
         self.events = events
+        self._event_times: dict[BaseEvent, float] = {}
         self._simpy_event = None
 
     @staticmethod
@@ -462,6 +463,7 @@ class MultiEvent(BaseEvent):
             for event in self.events
             if isinstance(event, BaseEvent)
         }
+        self._event_times = event_times
 
         time_to_complete = self.aggregation_function(list(event_times.values()))
 
@@ -495,6 +497,18 @@ class MultiEvent(BaseEvent):
                 )
             event._start_rehearsal()
 
+    def _finish_parts(self, event_times: dict[BaseEvent, float], time: float) -> None:
+        """Finish rehearsing the sub-events, at any nesting.
+
+        Args:
+            event_times (dict[BaseEvent, float]): The times of the sub-events.
+            time (float): The time up to which events complete.
+        """
+        for event, event_end_time in event_times.items():
+            event._finish_rehearsal(complete=event_end_time <= time)
+            if isinstance(event, MultiEvent):
+                event._finish_parts(event._event_times, time)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -509,8 +523,7 @@ class MultiEvent(BaseEvent):
         event_response = None
         time_to_finish, event_times = self.calc_time_to_complete_with_sub()
 
-        for event, event_end_time in event_times.items():
-            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+        self._finish_parts(event_times, time_to_finish)
 
         self._finish_rehearsal(complete=True)
 
-- 
2.43.0


From 6e0647441f69e65a274759fde1bdaab6d36bd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 41/69] fix: a task can be used after a rehearsal that failed

---
 src/upstage_des/task.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index ac39a08..80c4eca 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -417,6 +417,10 @@ class Task(SettableEnv):
                 #      f"for actor '{actor}'! [Rehearsal duration: "
                 #      f"{self.env.now - _old_env.now:.3g}]")
                 break
+            except Exception:
+                self.env = _old_env
+                self._rehearsing = False
+                raise
 
         self.env = _old_env
         self._rehearsing = False
@@ -600,7 +604,12 @@ class DecisionTask(Task):
 
         self._rehearsing = True
 
-        self.rehearse_decision(actor=understudy)
+        try:
+            self.rehearse_decision(actor=understudy)
+        except Exception:
+            self.env = _old_env
+            self._rehearsing = False
+            raise
         self.env = _old_env
         self._rehearsing = False
         return understudy
-- 
2.43.0


From 06b2177372f73f5f08161e7db4497e22e3739683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 42/69] fix: a mover hidden at the instant it starts is not
 told to sensors

---
 src/upstage_des/motion/motion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index d413ff7..48388df 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -328,6 +328,12 @@ class SensorMotionManager(UpstageBase):
         notify_time_from_now = first_time - self.env.now
         path = self._movers.get(mover)
 
+        # The mover may have been stopped or hidden since this was scheduled
+        scheduled = self._events.get(mover, [])
+        if all(proc is not self.env.active_process for _, proc in scheduled):
+            self._end_notify(mover, sensor, "before start")
+            return None
+
         if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
             was_in = self._add_to_view(mover, sensor)
             if not was_in:
-- 
2.43.0


From 8cc6b8c73bcaa9c07692eaa238e9afe107367629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 43/69] fix: sensors can hide movers while being notified by
 the stepped manager

---
 src/upstage_des/motion/stepped_motion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index fa78ac8..9fb76d1 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -166,6 +166,9 @@ class SteppedMotionManager(UpstageBase):
             for detectable, d_loc in zip(detectable_req, detect_locs):
                 if detectable is sensor:
                     continue
+                # A sensor can hide the detectable while being notified
+                if not self._test_detect(detectable):
+                    continue
                 visible = self._detect_dist(loc, radius, d_loc, sensor)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
                 self._update_awareness(sensor, detectable, visible)
@@ -285,7 +288,8 @@ class SteppedMotionManager(UpstageBase):
         """
         # TODO: key on detectable may make it faster
         to_rem = set()
-        for sensor, detect in self._in_view:
+        # A sensor can hide something else while being notified
+        for sensor, detect in list(self._in_view):
             if detect is detectable:
                 sensor.entity_exited_range(detectable)
                 to_rem.add((sensor, detect))
-- 
2.43.0


From c18465fb8d6cbc82dbe2919d23d15b706737390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 44/69] fix: pretty_now shows whole seconds

---
 src/upstage_des/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index bb401b7..7cd9b77 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -354,10 +354,10 @@ class UpstageBase:
 
         ts: str
         if standard in STANDARD_TIMES:
-            now_hrs = unit_convert(now, time_unit, "hr")
-            day = floor(now_hrs / 24)
-            rem_hours = now_hrs - (day * 24)
-            hms = strftime("%H:%M:%S", gmtime(rem_hours * 3600))
+            # Rounding keeps whole seconds from being shown as the second before
+            now_sec = round(unit_convert(now, time_unit, "s"), 6)
+            day = floor(now_sec / 86400)
+            hms = strftime("%H:%M:%S", gmtime(now_sec - (day * 86400)))
             ts = f"[Day {day:4.0f} - {hms:s}]"
         else:
             day_unit_count = self.stage.get("daily_time_count", None)
-- 
2.43.0


From 0d4dfc7b2d8496534e7d006bd4b67cf55049ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 45/69] fix: a wait converts its unit to hours when the stage
 has no time unit

---
 src/upstage_des/events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 1f9c7c5..6b69821 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -174,7 +174,9 @@ class Wait(BaseEvent):
             float: Time in stage units
         """
         base_unit = self.stage.get("time_unit")
-        if base_unit is not None and unit is not None:
+        # The time unit is hours unless it is set
+        base_unit = "hr" if base_unit is None else base_unit
+        if unit is not None:
             return unit_convert(time, unit, base_unit)
         return time
 
-- 
2.43.0


From 3d9ac3b9ea3283cf250a2834b3e97b453b3b2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:52 +0000
Subject: [PATCH 46/69] fix: a data table shows when a resting location starts
 to move

---
 src/upstage_des/data_utils/data_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index ba2f466..1de12e6 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -50,6 +50,10 @@ def _state_history_to_table(
     for time, value in hist:
         if isinstance(value, ActiveStatus):
             row = data.pop(-1)
+            if row[3] != time:
+                # The value was recorded before it became (in)active
+                data.append(row)
+                row = (*row[:3], time, *row[4:])
             rows = [tuple(list(row[:-1]) + [value.name])]
             active_value = "active" if value.name == "activating" else "inactive"
         elif is_dataclass(value) and not isinstance(value, type):
@@ -169,6 +173,10 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
         for time, value in state_data:
             if isinstance(value, ActiveStatus):
                 _row = data.pop(-1)
+                if _row[3] != time:
+                    # The location was recorded before it became (in)active
+                    data.append(_row)
+                    _row = (*_row[:3], time, *_row[4:])
                 row = tuple(list(_row[:-1]) + [value.name])
                 active_value = "active" if value.name == "activating" else "inactive"
             elif isinstance(value, GeodeticLocation):
-- 
2.43.0


From 1d7fed1cb3d8efe3ff10ac5b2004efca3193fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:40 +0000
Subject: [PATCH 47/69] fix: a nucleus interrupts networks in the order they
 were added

---
 src/upstage_des/nucleus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index 00d7546..7680550 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -50,7 +50,8 @@ class TaskNetworkNucleus:
             actor (Actor): The actor instance.
         """
         self._actor = actor
-        self._state_map: dict[str, set[str]] = defaultdict(set)
+        # Networks are kept in order, so that a simulation is the same every time
+        self._state_map: dict[str, dict[str, None]] = defaultdict(dict)
         self._network_map: dict[str, set[str]] = defaultdict(set)
         self._attach()
 
@@ -70,7 +71,7 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in watch_states:
-            self._state_map[state].add(network_name)
+            self._state_map[state][network_name] = None
             self._network_map[network_name].add(state)
             # if not hasattr(actor, state):
             #     raise SimulationError(f"State {state} does not exist on actor")
@@ -89,7 +90,7 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in self._network_map[network_name]:
-            self._state_map[state].remove(network_name)
+            del self._state_map[state][network_name]
         del self._network_map[network_name]
 
     def send_change(self, state_name: str, state_value: Any) -> None:
-- 
2.43.0


From 7b63604f0005e8dd403c4d83eda72f5bcafe7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:44 +0000
Subject: [PATCH 48/69] fix: get_stage_variable returns variables named like
 dictionary methods

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 7cd9b77..9da3cb5 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -630,7 +630,7 @@ def get_stage_variable(varname: str) -> Any:
         raise ValueError("Stage should have been set.")
     if varname not in stage:
         raise UpstageError(f"Variable '{varname}' does not exist in the stage")
-    return getattr(stage, varname)
+    return stage[varname]
 
 
 def get_stage() -> StageProtocol:
-- 
2.43.0


From bbd3411e2d9796b45ce7997ade7fe1588c5f984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:36 +0000
Subject: [PATCH 49/69] fix: great circle segments head for their end however
 short they are

---
 src/upstage_des/geography/spherical.py | 30 +++++++-------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..214defb 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_norm, _vector_subtract
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -203,27 +203,13 @@ class Spherical(SphericalConversions):
         v1 = cls._ll2cart(start[0], start[1])
         v2 = cls._ll2cart(end[0], end[1])
         # solve for the parameter value that equals the end point
-        d = _vector_dot(v1, v2)
-        common = sqrt(-1 / ((d - 1) * (d + 1)))
-        alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
-        W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
-        assert len(W) == 3
-        W = (W[0], W[1], W[2])
-        # test that the t is right
+        # The angle between the vectors comes from their chord, and W completes the plane.
+        t = 2 * asin(min(0.5 * _vector_norm(_vector_subtract(v2, v1)), 1.0))
         ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
+        if st < 1e-12 and ct < 0:
+            raise ValueError("geo_linspace fails for antipodal points")
+        W = tuple([(y - ct * x) / st if st > 0 else 0.0 for x, y in zip(v1, v2)])
+        assert len(W) == 3
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From 14727d97203c81ecb77c2e3b18b036b944b8ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:52 +0000
Subject: [PATCH 50/69] fix: ecef_linspace can be called

---
 src/upstage_des/geography/spherical.py | 4 ++--
 src/upstage_des/geography/wgs84.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 214defb..0f8c35a 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -436,10 +436,10 @@ class Spherical(SphericalConversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..33520bf 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -354,10 +354,10 @@ class WGS84(WGS84Conversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From 0f3e4e3575c2ab8decab6ec9002d5498b733c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:56 +0000
Subject: [PATCH 51/69] fix: cross_track_point looks behind the origin too

---
 src/upstage_des/geography/spherical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 0f8c35a..4faccca 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -404,7 +404,9 @@ class Spherical(SphericalConversions):
         theta_1_2 = radians(cls.bearing(origin, destination))
         d = asin(sin(delta_1_3) * sin(theta_1_3 - theta_1_2))
 
-        dist_from_origin = acos(cos(delta_1_3) / cos(d)) * spherical_radius
+        dist_from_origin = acos(min(max(cos(delta_1_3) / cos(d), -1.0), 1.0)) * spherical_radius
+        if cos(theta_1_3 - theta_1_2) < 0:
+            dist_from_origin = -dist_from_origin
         cross_track_point = cls.point_from_bearing_dist(
             origin,
             degrees(theta_1_2),
-- 
2.43.0


From 2134ea9678bfa78a420ad99256458a217be42520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 52/69] fix: rounding at the poles and antipodes is no math
 domain error

---
 src/upstage_des/geography/spherical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 4faccca..6a17e17 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -287,6 +287,7 @@ class Spherical(SphericalConversions):
         lon1, lat1, lon2, lat2 = map(radians, positions)
         a = sin(0.5 * (lat2 - lat1)) ** 2 + cos(lat1) * cos(lat2) * sin(0.5 * (lon2 - lon1)) ** 2
 
+        a = min(a, 1.0)  # antipodal points round to more than one
         dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(1.0 - a))
         return unit_convert(dist_m, "m", units)
 
@@ -338,10 +339,11 @@ class Spherical(SphericalConversions):
         lat1 = radians(lat)
         lon1 = radians(lon)
 
-        lat2 = asin(
+        sin_lat2 = (
             sin(lat1) * cos(dist / spherical_radius)
             + cos(lat1) * sin(dist / spherical_radius) * cos(bearing)
         )
+        lat2 = asin(min(max(sin_lat2, -1.0), 1.0))
 
         lon2 = lon1 + atan2(
             sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
-- 
2.43.0


From 02ccee3700dbd61a929bf809805813205be0ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:03 +0000
Subject: [PATCH 53/69] fix: WGS84 point_from_bearing_dist uses sin(sigma) in
 its longitude

---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 33520bf..90f273c 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -237,7 +237,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From a46654aa2869ea9ab98190f9f07b19b16c25c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 54/69] fix: WGS84 ecef2lla works at the poles

---
 src/upstage_des/geography/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index eb846cb..1b3612e 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -114,9 +114,9 @@ class BaseConversions:
         s = (1 + c + sqrt(c * c + 2 * c)) ** (1 / 3)
         P = F / (3 * (s + 1 / s + 1) ** 2 * G * G)
         Q = sqrt(1 + 2 * e2 * e2 * P)
-        ro = -(e2 * P * r) / (1 + Q) + sqrt(
-            (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
-        )
+        # zero at the poles, where rounding may make it less
+        ro_sq = (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
+        ro = -(e2 * P * r) / (1 + Q) + sqrt(max(ro_sq, 0.0))
         tmp = (r - e2 * ro) ** 2
         U = sqrt(tmp + Z2)
         V = sqrt(tmp + (1 - e2) * Z2)
-- 
2.43.0


From a8deeea0c5cb3a398c4223ec17e5af211f6a2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:37 +0000
Subject: [PATCH 55/69] fix: great circle course of due north and south legs
 stays in acos' domain

---
 src/upstage_des/motion/great_circle_calcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..c45ae5c 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -48,12 +48,14 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
 
     d = get_dist_rad(point1, point2)
 
+    cos_course = (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
+    # Roundoff can put a due north or due south course just outside of acos' domain
+    cos_course = min(max(cos_course, -1.0), 1.0)
+
     if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
+        tcl = acos(cos_course)
     else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
+        tcl = 2.0 * pi - acos(cos_course)
 
     return tcl
 
-- 
2.43.0


From 0821a7ec4e874392029bab78fe9eef387bc0e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:40 +0000
Subject: [PATCH 56/69] fix: analytical intersection for a sensor at the start,
 and for a leg of no length

---
 src/upstage_des/motion/geodetic_model.py     | 3 ++-
 src/upstage_des/motion/great_circle_calcs.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index abef70a..7cf8072 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -159,7 +159,8 @@ def analytical_intersection(
     intersections = []
     times = []
     types = []
-    alt_change_per_dist = (finish.alt - start.alt) / path_dist  # altitude change per radian
+    # altitude change per radian
+    alt_change_per_dist = (finish.alt - start.alt) / path_dist if path_dist > 0 else 0.0
 
     # check for start in the sensor range
     if dist_start < sensor_radius_rad:
diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index c45ae5c..1394365 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -47,6 +47,9 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     tcl: float
 
     d = get_dist_rad(point1, point2)
+    if d == 0:
+        # The points coincide, so any course will do
+        return 0.0
 
     cos_course = (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
     # Roundoff can put a due north or due south course just outside of acos' domain
-- 
2.43.0


From 90bbf03b4a94957499e282997d345d769988ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:44 +0000
Subject: [PATCH 57/69] fix: analytical intersection of a path above the
 sensor's radius is empty

---
 src/upstage_des/motion/geodetic_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index 7cf8072..cbac588 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -137,6 +137,10 @@ def analytical_intersection(
     # modify the sensor's radius to account for the altitude of the mover
     average_path_height = (start.alt + finish.alt) / 2.0
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
+    if abs(average_path_height_dist_units) > sensor_radius:
+        # the path passes entirely above (or below) the sensor
+        path_time = (get_dist_rad(start_rad, finish_rad) * earth_rad) / speed
+        return [], [], ["Bad", "Bad"], path_time
     adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
     sensor_radius_rad = adjusted_sensor_radius / earth_rad
 
-- 
2.43.0


From e7b1398714c2c048f26354c9bb97a69bbc72fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:48 +0000
Subject: [PATCH 58/69] fix: locations can be made outside of an
 EnvironmentContext

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 9da3cb5..417958c 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -238,7 +238,7 @@ class UpstageBase:
         try:
             _ = self.env
         except UpstageError:
-            warn(f"Environment not created at instantiation of {self}")
+            warn(f"Environment not created at instantiation of {type(self).__name__}")
         super().__init__(*args, **kwargs)
 
     @property
-- 
2.43.0


From 581411ded82026a153f55d77c40ffacf5e51e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:17 +0000
Subject: [PATCH 59/69] fix: recording functions were given the activation
 marks of active states

---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 8a28e78..f00251a 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -210,7 +210,9 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        # The functions take values of the state, not its activation marks
+        if override is None:
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From 04ea1d96c57f205c3cb0ead1d295979aa07f8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:20 +0000
Subject: [PATCH 60/69] fix: a dictionary state never equalled itself

---
 src/upstage_des/state_proxies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index f2084a1..16a193e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -85,6 +85,8 @@ class _DictionaryProxy(Generic[VTD]):
         return len(self._wrapped)
 
     def __eq__(self, other: Any) -> bool:
+        if isinstance(other, _DictionaryProxy):
+            other = other._wrapped
         if not isinstance(other, dict):
             return False
         return other == self._wrapped
-- 
2.43.0


From 0b6e0e98244404c3d94cf41033483b748ddfc645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:23 +0000
Subject: [PATCH 61/69] fix: a reservation could only be cancelled with the
 identical requester object

---
 src/upstage_des/resources/reserve.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 685241a..69cee62 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -108,11 +108,8 @@ class ReserveContainer:
         if requester not in self._queued:
             return False
         else:
-            request = [x for x in self._queued if x is requester]
-            if not request:
-                raise ValueError("Requester not available to cancel")
-            self._level += self._queued[requester][0]
-            self._queued.pop(request[0])
+            amt, _ = self._queued.pop(requester)
+            self._level += amt
             return True
 
     def take(self, requester: Any) -> float:
-- 
2.43.0


From 59f9234d8d0cb152586be99060dd901c0961814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 62/69] fix: an interrupt while a routine was being cancelled
 crashed the simulation

---
 src/upstage_des/routines.py | 14 +++++++++++++-
 src/upstage_des/task.py     |  6 +++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..b2f23e2 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -4,6 +4,7 @@ from collections.abc import Generator
 from typing import Any
 
 import simpy as SIM
+from simpy import Interrupt
 
 from upstage_des.base import SIMPY_GEN, SettableEnv, SimulationError
 from upstage_des.events import Any as AnyEvent
@@ -61,8 +62,19 @@ class Routine(SettableEnv):
         # Cancel can yield upstage events, so this pushes those through.
         # This can be very unsafe - if a store/container can't handle a put
         # or a get of some kind, it will hold forever.
+        # Interrupts that come while cleaning up don't stop it, they are
+        # returned for the task to handle when it restarts.
+        interrupts: list[Interrupt] = []
         for evt in self.cancel():
-            yield evt.as_event()
+            event_to_yield = evt.as_event()
+            waiting = True
+            while waiting:
+                try:
+                    yield event_to_yield
+                    waiting = False
+                except Interrupt as interrupt:
+                    interrupts.append(interrupt)
+        return interrupts
 
     def rehearse(self) -> tuple[float, Any | None]:
         """Rehearse the Routine.
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 80c4eca..b13aa08 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -485,6 +485,8 @@ class Task(SettableEnv):
         return_item = None
         stop_run = False
         back_from_interrupt = False
+        # Interrupts that came while routines were being cancelled
+        late_interrupts: list[Interrupt] = []
         event_to_yield: Process | SimpyEvent
         while not stop_run:
             try:
@@ -525,6 +527,8 @@ class Task(SettableEnv):
                             raise SimulationError(f"Unexpected yielded event type: {next_event}")
                     else:
                         back_from_interrupt = False
+                    if late_interrupts:
+                        raise late_interrupts.pop(0)
                     return_item = yield event_to_yield
                     # TODO: test if the return_item is for a multi-event
                     # that way we can return it as a more useful object
@@ -546,7 +550,7 @@ class Task(SettableEnv):
                         gen_obj = gen_objs.pop()
                         if isinstance(gen_obj, Routine):
                             gen.close()
-                            yield from gen_obj._run_cancel()
+                            late_interrupts += yield from gen_obj._run_cancel()
                     if action == InterruptStates.RESTART:
                         generators = [
                             self.task(actor=actor),
-- 
2.43.0


From 0f427dfa3d6008a8f9cd4421a277427be6759b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:07 +0000
Subject: [PATCH 63/69] fix: cloning an actor set its class attributes,
 properties and states on the clone

---
 src/upstage_des/actor.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index edb02dd..12cd724 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1016,18 +1016,6 @@ Args:
         clone.env = new_env
         clone.__dict__.update(no_init_states)
 
-        ignored_attributes = list(states.keys()) + ["env", "stage"]
-
-        for attribute_name, attribute in self.__class__.__dict__.items():
-            if not any(
-                (
-                    attribute_name in ignored_attributes,
-                    attribute_name.startswith("_"),
-                    callable(attribute),
-                )
-            ):
-                setattr(clone, attribute_name, attribute)
-
         # update the state histories
         for state_name in self._state_defs:
             if state_name in self._state_histories:
-- 
2.43.0


From 87c54ad91e4a79fce9f66fc56cf533a728272a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:32 +0000
Subject: [PATCH 64/69] fix: interrupting a task that waits for an event
 completed the event

---
 src/upstage_des/events.py | 25 ++++++++++++++++++++++++-
 src/upstage_des/task.py   | 11 +++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 6b69821..1651473 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -95,6 +95,10 @@ class BaseEvent(UpstageBase):
         """Cancel an event."""
         raise NotImplementedError("Implement custom event cancelling")
 
+    def _withdraw(self) -> None:
+        """Stop waiting for the event, when the task that does is interrupted."""
+        self.cancel()
+
     @property
     def rehearsing(self) -> bool:
         """If the event is rehearsing.
@@ -437,6 +441,18 @@ class MultiEvent(BaseEvent):
 
     def cancel(self) -> None:
         """Cancel the multi event and propagate it to the sub-events."""
+        self._cancel_with(lambda event: event.cancel())
+
+    def _withdraw(self) -> None:
+        """Stop waiting for the event and the sub-events."""
+        self._cancel_with(lambda event: event._withdraw())
+
+    def _cancel_with(self, canceller: Callable[[BaseEvent], None]) -> None:
+        """Cancel the multi event, and its sub-events with a function.
+
+        Args:
+            canceller (Callable[[BaseEvent], None]): What to do with a sub-event.
+        """
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
@@ -446,7 +462,7 @@ class MultiEvent(BaseEvent):
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
-                    event.cancel()
+                    canceller(event)
                 except Exception as e:
                     msg = f"Event {event} in {self} failed to cancel\n\t:{e}"
                     raise SimulationError(msg)
@@ -912,6 +928,13 @@ class Event(BaseEvent):
             exc.add_note(f"Runtime error when cancelling '{self}'")
             raise exc
 
+    def _withdraw(self) -> None:
+        """Stop waiting for the event.
+
+        The event has not succeeded: others may still wait for it, and the
+        interrupted task may wait for it again.
+        """
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index b13aa08..ddbff25 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -453,10 +453,13 @@ class Task(SettableEnv):
             actor.deactivate_all_mimic_states(task=self)
             if isinstance(next_event, BaseEvent):
                 names = list(actor._knowledge.keys())
-                for name in names:
-                    if actor._knowledge[name] is next_event:
-                        actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
-                next_event.cancel()
+                known = [name for name in names if actor._knowledge[name] is next_event]
+                for name in known:
+                    actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
+                if known:
+                    next_event.cancel()
+                else:
+                    next_event._withdraw()
             elif isinstance(next_event, Process):
                 if next_event.is_alive:
                     next_event.interrupt(cause=interrupt.cause)
-- 
2.43.0


From c70fced71958b10d7046c1e6b8fe8bc71696d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:36 +0000
Subject: [PATCH 65/69] fix: an unfinished Get's value was an AttributeError
 instead of a SimulationError

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 1651473..3ed8b5f 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -655,7 +655,7 @@ class Get(BaseRequestEvent):
         if self.__is_store:
             if self.rehearsing and self.done_rehearsing:
                 return PLANNING_FACTOR_OBJECT
-            if self._request_event is not None and self._request_event.value is not None:
+            if self._request_event is not None and self._request_event.triggered:
                 return self._request_event.value
             else:
                 raise SimulationError("Requested item from an unfinished Get request.")
-- 
2.43.0


From 37d2098210b5d54bf116476c6dc6ecf45ac41edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:18 +0000
Subject: [PATCH 66/69] fix: a mover that waits its travel time late in a
 simulation went past the end of its path

---
 src/upstage_des/states.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index f00251a..5774ddd 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -605,22 +605,27 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, now: float = 0.0
+    ) -> tuple[int, float]:
         """Find out how far along waypoints the state is.
 
         Args:
             path_data (dict[str, Any]): Data about the movement path
             time_elapsed (float): Time spent moving
+            now (float, optional): The current time, which limits the precision
+                of the time spent moving. Defaults to 0.0.
 
         Returns:
             int: index in waypoints
             float: time spent on path
         """
         sum_t = 0.0
+        tolerance = 1e-12 * (1.0 + now)
         t: float
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            if time_elapsed <= (sum_t + tolerance):
                 return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
@@ -640,7 +645,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, current_time)
         return list(data["waypoints"][idx:])
 
     def _active(self, instance: "Actor") -> CartesianLocation | None:
@@ -673,7 +678,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             return_value: CartesianLocation = data["value"]  # pragma: no cover
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(path_data, elapsed, current_time)
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
-- 
2.43.0


From 860148612849f6ac7f27b527d722e5b58d4e2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:21 +0000
Subject: [PATCH 67/69] fix: data tables list the resources of a multi-store
 state under that state

---
 src/upstage_des/data_utils/data_utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 1de12e6..49b212d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,6 +11,7 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    MultiStoreState,
     _DictionaryProxy,
 )
 
@@ -131,6 +132,16 @@ def _actor_state_data(
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
+        elif isinstance(state, MultiStoreState):
+            for key, resource in _value.items():
+                sname = f"{state_name}.{key}"
+                if hasattr(resource, "_quantities"):
+                    resources.append(resource)
+                    data.extend(
+                        _state_history_to_table(name, kind, sname, False, resource._quantities)
+                    )
+                elif save_static:
+                    data.append((name, kind, sname, 0.0, resource, STATIC_STATE))
         elif save_static:
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DictionaryProxy):
-- 
2.43.0


From 200430f6581985d17f59a8d5c8ce91be8aeee849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:24 +0000
Subject: [PATCH 68/69] fix: waypoints on a sensor's boundary crashed or lost
 notifications by rounding

---
 src/upstage_des/motion/cartesian_model.py | 44 +++++++++++------------
 src/upstage_des/motion/motion.py          |  7 +++-
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index e8656e0..501832f 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -129,28 +129,26 @@ def cartesian_linear_intersection(
         sensor_radius,
         speed,
     )
-    if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], path_time
+    # The start and finish may be on the boundary, where rounding decides if they
+    # are inside, and if the crossing there is on the path.
+    crossings = [(t, CartesianLocation(*loc)) for t, loc in zip(times, intersections)]
+    crossings.sort(key=lambda crossing: crossing[0])
+    if len(crossings) == 1:
+        # The boundary was entered before the start
+        crossings.insert(0, (0.0, start))
+    misses = not crossings or crossings[0][0] > path_time
+    crossings = [(t, loc) if t <= path_time else (path_time, finish) for t, loc in crossings]
 
-    # filter out intersections beyond the path length
-    idxs = sorted(range(len(times)), key=lambda i: times[i])
-    inters = [CartesianLocation(*intersections[i]) for i in idxs if times[i] <= path_time]
-    times = [times[i] for i in idxs if times[i] <= path_time]
-    type_start = "START_INSIDE" if start_inside else "ENTER"
-    type_end = "END_INSIDE" if finish_inside else "EXIT"
-    # A start or finish that is exactly on the boundary is also an intersection,
-    # so only use the exit after a start inside, and the entry before a finish inside.
     if start_inside:
-        inters = [start] + inters[-1:]
-        times = [0] + times[-1:]
-    if finish_inside:
-        inters = inters[:1] + [finish]
-        times = times[:1] + [path_time]
-    if len(inters) != 2:
-        raise MotionAndDetectionError(
-            f"There should be two intersections, not {len(inters)} ({inters})"
-        )
-    if len(times) != 2:
-        raise MotionAndDetectionError("There should be two time intersections")
-
-    return inters, times, [type_start, type_end], path_time
+        entry, leave = (0.0, start), (crossings[-1] if crossings else (0.0, start))
+        types = ["START_INSIDE", "EXIT"]
+    elif finish_inside:
+        entry, leave = (crossings[0] if crossings else (path_time, finish)), (path_time, finish)
+        types = ["ENTER", "END_INSIDE"]
+    elif misses:
+        return [], [], ["BAD", "BAD"], path_time
+    else:
+        entry, leave = crossings
+        types = ["ENTER", "EXIT"]
+
+    return [entry[1], leave[1]], [entry[0], leave[0]], types, path_time
diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 48388df..2349f81 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -246,7 +246,12 @@ class SensorMotionManager(UpstageBase):
 
                     inter_data.pop()
                     continue
-                inter_data.append((typ, start_time + elapsed_time + t, inter))
+                time = start_time + (elapsed_time + t)
+                if typ == "ENTER" and inter_data and time <= inter_data[-1][1]:
+                    # It turns around on the boundary, so it doesn't leave
+                    inter_data.pop()
+                    continue
+                inter_data.append((typ, time, inter))
             elapsed_time += path_time
 
         # pair off the in/out
-- 
2.43.0


From 0ebfa4f902e5781d2534a80a397f9e93c8f0ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:28 +0000
Subject: [PATCH 69/69] fix: users of a continuous container that end as it
 reaches a limit crashed by rounding

---
 src/upstage_des/resources/container.py | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index fbc095e..607a4fa 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -291,12 +291,28 @@ class ContinuousContainer:
         Returns:
             float: The current level.
         """
-        now = self._env.now
-        if now > self._last:
-            self._level += self._rate * (now - self._last)
-            self._last = now
+        self._level = self._level_now()
+        self._last = self._env.now
         return self._level
 
+    def _level_now(self) -> float:
+        """Get the level of the container at the current time.
+
+        Rounding can put the level a hair outside of the limits.
+
+        Returns:
+            float: The current level.
+        """
+        now = self._env.now
+        level = self._level + self._rate * (now - self._last)
+        biggest = self._capacity if self._capacity < float("inf") else self._level
+        slack = 1e-12 * (biggest + abs(self._rate) * now)
+        if level < 0 and -level <= slack:
+            return 0.0
+        if level > self._capacity and level - self._capacity <= slack:
+            return self._capacity
+        return level
+
     def _check_empty(self) -> tuple[list[ContinuousGet], float]:
         level = self._level
         to_rem: list[ContinuousGet] = []
@@ -364,11 +380,14 @@ class ContinuousContainer:
 
     def _add_rate(self, rate_change: float | int, interrupt: bool = True) -> None:
         """Add a new rate to the existing rate."""
-        if self._checking is not None and interrupt:
+        if self._checking is not None and interrupt and self._checking.is_alive:
             self._checking.interrupt("updated")
 
         self._set_level()
         self._rate += rate_change
+        if abs(self._rate) <= 1e-12 * abs(rate_change):
+            # Rates that cancel out can leave a rounding residual.
+            self._rate = 0.0
 
         if self._rate == 0.0:
             self._checking = None
@@ -411,4 +430,4 @@ class ContinuousContainer:
         Returns:
             float: The current amount remaining.
         """
-        return self._level + self._rate * (self._env.now - self._last)
+        return self._level_now()
-- 
2.43.0

