From 8e81f16e30a6d3a27d48d4867a3f35e445f36c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 01/52] fix: keep the priority semaphore fair and free of lost
 wakeups

A waiter cancelled after it was woken up but before it resumed left the
semaphore locked for everybody, cancelling a waiter sent the next one to the
back of the queue, and a newcomer could take a slot promised to a waiter.
Count the promised slots instead.
---
 zigpy/datastructures.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..282bdeb 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -41,7 +41,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._comparison_counter: int = 0
 
         self._waiters: list[tuple[int, int, asyncio.Future]] = []
-        self._wakeup_scheduled: bool = False
+        self._wakeups_scheduled: int = 0
 
     @property
     @functools.cache
@@ -49,12 +49,12 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         return asyncio.get_running_loop()
 
     def _wake_up_next(self) -> None:
-        while self._waiters:
+        while self._waiters and not self.locked():
             _, _, waiter = heapq.heappop(self._waiters)
 
             if not waiter.done():
                 waiter.set_result(None)
-                self._wakeup_scheduled = True
+                self._wakeups_scheduled += 1
                 return
 
     @property
@@ -85,7 +85,8 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
 
     def locked(self) -> bool:
         """Returns True if semaphore cannot be acquired immediately."""
-        return self._value <= 0
+        # Slots promised to tasks that were woken up but did not resume yet are not free
+        return self._value - self._wakeups_scheduled <= 0
 
     async def acquire(self, priority: int = 0) -> typing.Literal[True]:
         """Acquire a semaphore.
@@ -96,9 +97,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
-        # _wakeup_scheduled is set if *another* task is scheduled to wakeup
-        # but its acquire() is not resumed yet
-        while self._wakeup_scheduled or self._value <= 0:
+        if self.locked():
             # To ensure that our objects don't have to be themselves comparable, we
             # maintain a global count and increment it on every insert. This way,
             # the tuple `(-priority, count, item)` will never have to compare `item`.
@@ -110,13 +109,18 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
 
             try:
                 await fut
-                # reset _wakeup_scheduled *after* waiting for a future
-                self._wakeup_scheduled = False
+                self._wakeups_scheduled -= 1
             except asyncio.CancelledError:
-                self._wake_up_next()
+                if not fut.cancelled():
+                    # We were woken up but will not use the slot: pass it on
+                    self._wakeups_scheduled -= 1
+                    self._wake_up_next()
+                elif obj in self._waiters:
+                    self._waiters.remove(obj)
+                    heapq.heapify(self._waiters)
+
                 raise
 
-        assert self._value > 0
         self._value -= 1
         return True
 
-- 
2.43.0


From a3589db62d7a43dbf4884f2f88d6a9a53bd3ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 02/52] fix: cancelling one combined caller must not cancel the
 others

The coroutine shared by concurrent callers was awaited directly, so that
cancelling any single caller cancelled it for everybody.
---
 zigpy/util.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 08fed28..ea211d7 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -482,6 +482,7 @@ def combine_concurrent_calls(
     """Decorator that allows concurrent calls to expensive coroutines to share a result."""
 
     tasks: dict[tuple, asyncio.Task] = {}
+    callers: dict[asyncio.Task, int] = {}
     signature = inspect.signature(function)
 
     @functools.wraps(function)
@@ -492,16 +493,24 @@ def combine_concurrent_calls(
         # XXX: all args and kwargs are assumed to be hashable
         key = tuple(bound.arguments.items())
 
-        if key in tasks:
-            return await tasks[key]
+        if key not in tasks:
+            tasks[key] = asyncio.create_task(function(*args, **kwargs))
 
-        tasks[key] = asyncio.create_task(function(*args, **kwargs))
+        task = tasks[key]
+        callers[task] = callers.get(task, 0) + 1
 
         try:
-            return await tasks[key]
+            # Cancelling one of the callers must not cancel the others
+            return await asyncio.shield(task)
         finally:
-            assert tasks[key].done()
-            del tasks[key]
+            callers[task] -= 1
+
+            if callers[task] == 0:
+                del callers[task]
+                task.cancel()
+
+                if tasks.get(key) is task:
+                    del tasks[key]
 
     return replacement
 
-- 
2.43.0


From a1d2e1f6e67fdc0de8c5eab1fe75dfe233150672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 03/52] fix: truncated headers and ZDO packets to other
 endpoints must not raise on reception

---
 zigpy/device.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..f6f5405 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -453,6 +453,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         endpoint = self.endpoints[packet.src_ep]
 
+        # ZDO only communicates with ZDO
+        if endpoint is self.zdo and packet.dst_ep != zdo.ZDO_ENDPOINT:
+            self.debug("Ignoring ZDO message to endpoint %s", packet.dst_ep)
+            return
+
         # Ignore packets that do not match the endpoint's clusters.
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
         if (
@@ -467,13 +472,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first. This fails only if the packet is truncated.
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError as exc:
+            self.debug("Failed to parse header of packet %r", packet, exc_info=exc)
+            return
 
         try:
             if (
-- 
2.43.0


From 43a8c2b5ee05222b680a4efcb22826d46a5e19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 04/52] fix: trailing ZDO data must not raise on reception when
 the coordinator is unknown

---
 zigpy/zdo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 0d43bb9..e7ee378 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -273,7 +273,9 @@ class ZDO(zigpy.util.CatchingTaskMixin, zigpy.util.ListenableMixin):
 
     def log(self, lvl, msg, *args, **kwargs):
         msg = "[0x%04x:zdo] " + msg
-        args = (self._device.nwk, *args)
+        # There is no device when parsing ZDO frames before the coordinator is known
+        nwk = self._device.nwk if self._device is not None else 0x0000
+        args = (nwk, *args)
         return LOGGER.log(lvl, msg, *args, **kwargs)
 
     @property
-- 
2.43.0


From 49749f9a6add809a6608cbde370c35c2929f002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 05/52] fix: user descriptor ZDO schemas have to be 16 bytes
 long lists

---
 zigpy/zdo/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 3b38e6b..52ad17f 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -559,7 +559,7 @@ CLUSTERS = {
     ZDOCmd.Device_annce: (NWK, IEEE, ("Capability", t.uint8_t)),
     ZDOCmd.User_Desc_set: (
         NWKI,
-        ("UserDescriptor", t.FixedList[16, t.uint8_t]),
+        ("UserDescriptor", t.FixedList[t.uint8_t, 16]),
     ),  # Really a string
     ZDOCmd.System_Server_Discovery_req: (("ServerMask", t.uint16_t),),
     ZDOCmd.Discovery_store_req: (
@@ -665,7 +665,7 @@ CLUSTERS = {
         STATUS,
         NWKI,
         ("Length", t.uint8_t),
-        ("UserDescriptor", t.Optional(t.FixedList[16, t.uint8_t])),
+        ("UserDescriptor", t.Optional(t.FixedList[t.uint8_t, 16])),
     ),
     ZDOCmd.Discovery_Cache_rsp: (STATUS,),
     ZDOCmd.User_Desc_conf: (STATUS, NWKI),
-- 
2.43.0


From dafefb74aa0bf6bf37fd56ee6113a4847d1d3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 06/52] fix: expire debounced objects in the order in which
 they are due

---
 zigpy/datastructures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index 282bdeb..b393eb7 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -242,9 +242,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The object that expires first is always at the front of the heap
+        while self._queue and self._queue[0][0] <= now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -276,7 +276,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From 2ea23275c3207b3fd6ba91446cc82985b457e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 07/52] fix: callbacks may register and remove response
 listeners during delivery

---
 zigpy/device.py    | 16 ++++++++++------
 zigpy/listeners.py |  6 +++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f6f5405..0d642fc 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -4,7 +4,6 @@ import asyncio
 import contextlib
 from datetime import datetime, timezone
 import enum
-import itertools
 import logging
 import sys
 import time
@@ -530,11 +529,16 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         if error is not None:
             return
 
-        # Pass the request off to a listener, if one is registered
-        for listener in itertools.chain(
-            self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
-            self._application._req_listeners[self],
-        ):
+        # Pass the request off to a listener, if one is registered. Listeners can be
+        # registered and removed by the callbacks.
+        for src, listener in [
+            (src, listener)
+            for src in (zigpy.listeners.ANY_DEVICE, self)
+            for listener in self._application._req_listeners[src]
+        ]:
+            if listener not in self._application._req_listeners[src]:
+                continue
+
             # Resolve only until the first future listener
             if listener.resolve(hdr, args) and isinstance(
                 listener, zigpy.listeners.FutureListener
diff --git a/zigpy/listeners.py b/zigpy/listeners.py
index 503e7ca..8b1c97e 100644
--- a/zigpy/listeners.py
+++ b/zigpy/listeners.py
@@ -16,7 +16,7 @@ LOGGER = logging.getLogger(__name__)
 ANY_DEVICE = Singleton("ANY_DEVICE")
 
 
-@dataclasses.dataclass(frozen=True)
+@dataclasses.dataclass(frozen=True, eq=False)
 class BaseRequestListener:
     matchers: tuple[MatcherType]
 
@@ -75,7 +75,7 @@ class BaseRequestListener:
         raise NotImplementedError  # pragma: no cover
 
 
-@dataclasses.dataclass(frozen=True)
+@dataclasses.dataclass(frozen=True, eq=False)
 class FutureListener(BaseRequestListener):
     future: asyncio.Future
 
@@ -95,7 +95,7 @@ class FutureListener(BaseRequestListener):
         return True
 
 
-@dataclasses.dataclass(frozen=True)
+@dataclasses.dataclass(frozen=True, eq=False)
 class CallbackListener(BaseRequestListener):
     callback: typing.Callable[
         [foundation.ZCLHeader | zdo_t.ZDOHeader, foundation.CommandSchema], typing.Any
-- 
2.43.0


From 09b9c2b2f11b8b5b06f9272f4d32905c92169678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 08/52] fix: attribute values of an incompatible type must not
 raise

---
 zigpy/zcl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..c4658de 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -484,7 +484,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value = self.attributes[attr.attrid].type(attr.value.value)
                 except KeyError:
                     value = attr.value.value
-                except ValueError:
+                except (TypeError, ValueError):
                     self.debug(
                         "Couldn't normalize %a attribute with %s value",
                         attr.attrid,
@@ -585,7 +585,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                         value = self.attributes[record.attrid].type(record.value.value)
                     except KeyError:
                         value = record.value.value
-                    except ValueError:
+                    except (TypeError, ValueError):
                         value = record.value.value
                         self.debug(
                             "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From 03ae49070740bc1c5588340bdb46d5c53264e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 09/52] fix: remove a device whatever its leave request fails
 with

---
 zigpy/application.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..8a3536c 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -530,10 +530,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
+        except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
-
-        self.devices.pop(device.ieee, None)
+        finally:
+            self.devices.pop(device.ieee, None)
 
     def deserialize(
         self,
-- 
2.43.0


From f2654efa6f6effc089d35f72fd3dfa6b33fb3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 10/52] fix: a device that joins while it is being removed must
 not be lost

---
 zigpy/application.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 8a3536c..d2c624f 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -64,6 +64,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
     def __init__(self, config: dict) -> None:
         self.devices: dict[t.EUI64, zigpy.device.Device] = {}
+        self._devices_being_removed: set[zigpy.device.Device] = set()
         self.state: zigpy.state.State = zigpy.state.State()
         self._listeners = {}
         self._config = self.SCHEMA(config)
@@ -486,6 +487,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         dev.cancel_initialization()
 
         LOGGER.info("Removing device 0x%04x (%s)", dev.nwk, ieee)
+        self._devices_being_removed.add(dev)
         self.create_task(
             self._remove_device(dev, remove_children=remove_children, rejoin=rejoin),
             f"remove_device-nwk={dev.nwk!r}-ieee={ieee!r}",
@@ -533,7 +535,11 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
         finally:
-            self.devices.pop(device.ieee, None)
+            self._devices_being_removed.discard(device)
+
+            # The device may have joined again in the meantime
+            if self.devices.get(device.ieee) is device:
+                self.devices.pop(device.ieee)
 
     def deserialize(
         self,
@@ -556,9 +562,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
         ieee = t.EUI64(ieee)
 
-        try:
-            dev = self.get_device(ieee=ieee)
-        except KeyError:
+        dev = self.devices.get(ieee)
+
+        if dev is None or dev in self._devices_being_removed:
             dev = self.add_device(ieee, nwk)
             LOGGER.info("New device 0x%04x (%s) joined the network", nwk, ieee)
             new_join = True
@@ -1059,7 +1065,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             #  - ZCL if endpoints are initialized
             #  - ZCL from Basic packet.cluster_id if endpoints are initializing
 
-            if not device.initializing:
+            if (
+                not device.initializing and device not in self._devices_being_removed
+            ):
                 device.schedule_initialize()
 
             return device.packet_received(packet)
@@ -1078,7 +1086,11 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         device = self.get_device(ieee=device.ieee)
 
         # If the quirk did not fast-initialize the device, start initialization
-        if not device.initializing and not device.is_initialized:
+        if (
+            not device.initializing
+            and not device.is_initialized
+            and device not in self._devices_being_removed
+        ):
             device.schedule_initialize()
 
     def handle_message(
-- 
2.43.0


From ba41f2033c4cd7a5d7b05a800e3488e97abfa549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 11/52] fix: an inactive endpoint stays inactive when an
 interview is resumed

---
 zigpy/endpoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b4ca4f2..8a0bbb2 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -58,7 +58,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
     async def initialize(self) -> None:
         self.info("Discovering endpoint information")
 
-        if self.profile_id is not None or self.status == Status.ENDPOINT_INACTIVE:
+        if self.status == Status.ENDPOINT_INACTIVE:
+            # It has no descriptor, do not make it look like it has one
+            self.info("Endpoint is inactive")
+            return
+        elif self.profile_id is not None:
             self.info("Endpoint descriptor already queried")
         else:
             status, _, sd = await self._device.zdo.Simple_Desc_req(
-- 
2.43.0


From aad0b0ac57402dfce541c6ed53cd010b25af29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 12/52] fix: debounced objects expiring at the same time must
 not be compared

---
 zigpy/datastructures.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index b393eb7..1ee5bfb 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -230,7 +230,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -262,12 +261,9 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
+        # Different objects can expire at the same time, e.g. on platforms with
+        # low-resolution clocks or because of rounding. We need to make sure that `obj` will
         # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
-- 
2.43.0


From 33c6a32f918d32286ef61dd98b838130279c3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:07 +0000
Subject: [PATCH 13/52] fix: unsupported energy scans must not allocate one
 value per bit pattern

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index d2c624f..e4708bc 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -274,7 +274,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
             LOGGER.warning("Coordinator does not support energy scanning")
             scanned_channels = channels
-            energy_values = [0] * scanned_channels
+            energy_values = [0] * len(list(scanned_channels))
         else:
             _, scanned_channels, _, _, energy_values = rsp
 
-- 
2.43.0


From cccdbb78649ed3254bb82ce2f43dbc44aa5a4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 14/52] fix: a rejected read fails with the status of the
 default response, not with its command id

---
 zigpy/quirks/__init__.py | 2 +-
 zigpy/zcl/__init__.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..1af0a61 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -323,7 +323,7 @@ class CustomCluster(zigpy.zcl.Cluster):
                 succeeded.append(  # noqa: PERF401
                     foundation.ReadAttributeRecord(
                         attrid,
-                        results[0],
+                        results[-1],
                         foundation.TypeValue(),
                     )
                 )
diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index c4658de..6ac047b 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -576,7 +576,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
         if not isinstance(result[0], list):
             for attrid in to_read:
                 orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = result[0]  # Assume default response
+                failure[orig_attribute] = result[-1]  # Assume default response
         else:
             for record in result[0]:
                 orig_attribute = orig_attributes[record.attrid]
-- 
2.43.0


From 188bacc20d98f40bf2a2c324e9ec1bcd08df16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 15/52] fix: attributes nobody asked for in a read response
 must not fail the read

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 6ac047b..4eb89dd 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -579,7 +579,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 failure[orig_attribute] = result[-1]  # Assume default response
         else:
             for record in result[0]:
-                orig_attribute = orig_attributes[record.attrid]
+                orig_attribute = orig_attributes.get(record.attrid, record.attrid)
                 if record.status == foundation.Status.SUCCESS:
                     try:
                         value = self.attributes[record.attrid].type(record.value.value)
-- 
2.43.0


From 61c0790b7593a4ebeb98acde59f76af688d38fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 16/52] fix: quirks that take over the attribute cache also
 take over the update times

---
 zigpy/quirks/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 1af0a61..a615743 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -187,6 +187,11 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                         .in_clusters[cluster_id]
                         ._attr_cache.copy()
                     )
+                    cluster._attr_last_updated = (
+                        replace_device[endpoint_id]
+                        .in_clusters[cluster_id]
+                        ._attr_last_updated.copy()
+                    )
 
         for c in replacement_data.get(SIG_EP_OUTPUT, []):
             if isinstance(c, int):
@@ -206,6 +211,11 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                         .out_clusters[cluster_id]
                         ._attr_cache.copy()
                     )
+                    cluster._attr_last_updated = (
+                        replace_device[endpoint_id]
+                        .out_clusters[cluster_id]
+                        ._attr_last_updated.copy()
+                    )
 
 
 class CustomCluster(zigpy.zcl.Cluster):
-- 
2.43.0


From 786c48ee3276f1efdb3139f8292162b25c477906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 17/52] fix: the length of a character string is the length of
 its encoded bytes

---
 zigpy/types/basic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index c08cab8..3599fd2 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -940,15 +940,15 @@ class CharacterString(str):
         return instance
 
     def serialize(self) -> bytes:
-        if len(self) >= pow(256, self._prefix_length) - 1:
+        data = self.encode("utf8")
+
+        if len(data) >= pow(256, self._prefix_length) - 1:
             raise ValueError("String is too long")
 
         if self.invalid:
             return self._invalid_length.to_bytes(self._prefix_length, "little")
 
-        return len(self).to_bytes(
-            self._prefix_length, "little", signed=False
-        ) + self.encode("utf8")
+        return len(data).to_bytes(self._prefix_length, "little", signed=False) + data
 
     @classmethod
     def deserialize(cls: type[T], data: bytes) -> tuple[T, bytes]:
-- 
2.43.0


From d5248fa190105f8d14bed6c9e8f55d3638e1c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 18/52] fix: stopping periodic topology scans while one is
 running must stop them

---
 zigpy/topology.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..b47c12a 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -74,14 +74,20 @@ class Topology(zigpy.util.ListenableMixin):
 
             LOGGER.debug("Starting scheduled neighbor scan")
 
+            # A manual scan cancels a scheduled one but must not interrupt the scan loop, so
+            # a cancellation of the scan is told apart from one of the loop itself
+            scan = asyncio.create_task(self.scan())
+
             try:
-                await self.scan()
+                await asyncio.wait([scan])
             except asyncio.CancelledError:
-                # We explicitly catch a cancellation here to ensure the scan loop will
-                # not be interrupted if a manual scan is initiated
+                scan.cancel()
+                raise
+
+            if scan.cancelled():
                 LOGGER.debug("Topology scan cancelled")
-            except (Exception, asyncio.CancelledError):
-                LOGGER.debug("Topology scan failed", exc_info=True)
+            elif scan.exception() is not None:
+                LOGGER.debug("Topology scan failed", exc_info=scan.exception())
 
     async def scan(
         self, devices: typing.Iterable[zigpy.device.Device] | None = None
-- 
2.43.0


From 8eb2451dd23f8f3325cd616bc9a3512bbc669955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 19/52] fix: a group command rejected with a default response
 must not change the membership

---
 zigpy/endpoint.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 8a0bbb2..9c77c9c 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -156,6 +156,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            # Its first field is the command ID and not the status
+            self.debug("Couldn't add to 0x%04x group: %s", grp_id, res)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
             self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
             return res[0]
@@ -171,6 +176,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot remove 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            # Its first field is the command ID and not the status
+            self.debug("Couldn't remove from 0x%04x group: %s", grp_id, res)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
             self.debug("Couldn't remove to 0x%04x group: %s", grp_id, res[0])
             return res[0]
-- 
2.43.0


From 26dab9bf0e1ceeb69e53913da996b01d22213e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 20/52] fix: removing an endpoint that is no member of a group
 must not announce a removal

---
 zigpy/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..2bf94aa 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -52,9 +52,9 @@ class Group(ListenableMixin, dict):
         return self
 
     def remove_member(self, ep: Endpoint, suppress_event: bool = False) -> Group:
-        self.pop(ep.unique_id, None)
+        was_member = self.pop(ep.unique_id, None) is not None
         ep.member_of.pop(self.group_id, None)
-        if not suppress_event:
+        if was_member and not suppress_event:
             self.listener_event("member_removed", self, ep)
         return self
 
-- 
2.43.0


From 010e1e53e1aff26f3b06518aadcafd12ec2fe9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 21/52] fix: popping an unknown group must not announce the
 removal of the default value

---
 zigpy/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index 2bf94aa..e5134e7 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -151,7 +151,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From 8f6bb6aad15e16365a731a2ea8f2fc613ee20c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 22/52] fix: a removed device must not stay member of its
 groups

---
 zigpy/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index e4708bc..ad3f8b0 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -541,6 +541,12 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             if self.devices.get(device.ieee) is device:
                 self.devices.pop(device.ieee)
 
+            # A removed device is no longer member of any group
+            for group in self.groups.values():
+                for endpoint in device.non_zdo_endpoints:
+                    if group.get(endpoint.unique_id) is endpoint:
+                        group.remove_member(endpoint)
+
     def deserialize(
         self,
         sender: zigpy.device.Device,
-- 
2.43.0


From 55f0843f69b45d3f3eb8157d3cb68a50f3935e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 23/52] fix: devices can be added to a group without giving it
 a name

---
 zigpy/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 9c77c9c..baa022f 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -151,7 +151,7 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
-            res = await self.groups.add(grp_id, name)
+            res = await self.groups.add(grp_id, name if name is not None else "")
         except AttributeError:
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
-- 
2.43.0


From 03dc66e82b19c6ac7d965a9a3b562dc42221f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 24/52] fix: a new network must not get the reserved PAN ID
 0xFFFF

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index ad3f8b0..f8df9d4 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -355,7 +355,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From e501055b70ec143496d4d99cac7c449aecfac147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 25/52] fix: the coordinator must be closed for joining even if
 the startup broadcast fails

---
 zigpy/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index f8df9d4..ff9818a 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -190,6 +190,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             LOGGER.warning("Failed to send startup broadcast: %s", e)
             LOGGER.warning(INTERFERENCE_MESSAGE)
 
+            # The coordinator itself can still be closed
+            await self.permit_ncp(0)
+
         if self.config[conf.CONF_STARTUP_ENERGY_SCAN]:
             # Each scan period is 15.36ms. Scan for at least 200ms (2^4 + 1 periods) to
             # pick up WiFi beacon frames.
-- 
2.43.0


From 19a79077e58bb1d01b599bccfcbccd4651f4e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 26/52] fix: initializing again must not leave the previous
 watchdog and OTA broadcasts running

---
 zigpy/application.py  | 4 ++++
 zigpy/ota/__init__.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index ff9818a..0ebbf3d 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -137,6 +137,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         # Make sure the first thing we do is feed the watchdog
         if self.config[conf.CONF_WATCHDOG_ENABLED]:
             await self.watchdog_feed()
+
+            if self._watchdog_task is not None:
+                self._watchdog_task.cancel()
+
             self._watchdog_task = asyncio.create_task(self._watchdog_loop())
 
         last_backup = self.backups.most_recent_backup()
diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..142b728 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -251,6 +251,7 @@ class OTA:
 
     def start_periodic_broadcasts(self, initial_delay: float, interval: float) -> None:
         """Start the periodic OTA broadcasts."""
+        self.stop_periodic_broadcasts()
         self._broadcast_loop_task = asyncio.create_task(
             self.broadcast_loop(
                 initial_delay=initial_delay,
-- 
2.43.0


From a5a22d6f5c5a69b0964a167e979a3889691a724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 27/52] fix: a recorded backup must not change along with the
 network state

---
 zigpy/backups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..c3ef24e 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -135,8 +135,9 @@ class BackupManager(ListenableMixin):
     def from_network_state(self) -> NetworkBackup:
         """Create a backup object from the current network's state."""
         return NetworkBackup(
-            network_info=self.app.state.network_info,
-            node_info=self.app.state.node_info,
+            # Radio libraries may update the state in place, the backup must not change
+            network_info=copy.deepcopy(self.app.state.network_info),
+            node_info=copy.deepcopy(self.app.state.node_info),
         )
 
     async def create_backup(self, *, load_devices: bool = False) -> NetworkBackup:
-- 
2.43.0


From f2d2bb8db72d0fa785b8dc69e53d52aedd6c4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 28/52] fix: persist devices with inactive endpoints

---
 zigpy/appdb.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..13795b2 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -36,6 +36,9 @@ MIN_SQLITE_VERSION = (3, 24, 0)
 UNIX_EPOCH = datetime.fromtimestamp(0, tz=timezone.utc)
 DB_V_REGEX = re.compile(r"(?:_v\d+)?$")
 
+# The `endpoints` table cannot store null
+UNKNOWN_ENDPOINT_INFO = -1
+
 MIN_UPDATE_DELTA = timedelta(seconds=30).total_seconds()
 
 
@@ -486,8 +489,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             (
                 device.ieee,
                 ep.endpoint_id,
-                ep.profile_id,
-                ep.device_type,
+                # Endpoints that turned out to be inactive have neither
+                ep.profile_id if ep.profile_id is not None else UNKNOWN_ENDPOINT_INFO,
+                ep.device_type if ep.device_type is not None else UNKNOWN_ENDPOINT_INFO,
                 ep.status,
             )
             for ep in device.non_zdo_endpoints
@@ -800,6 +804,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             async for ieee, epid, profile_id, device_type, status in cursor:
                 dev = self._application.get_device(ieee)
                 ep = dev.add_endpoint(epid)
+
+                if profile_id == UNKNOWN_ENDPOINT_INFO:
+                    profile_id = None
+
+                if device_type == UNKNOWN_ENDPOINT_INFO:
+                    device_type = None
+
                 ep.profile_id = profile_id
                 ep.status = zigpy.endpoint.Status(status)
 
-- 
2.43.0


From 5b60f178b47e927decd6247cfdfad5c3ebc484ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 29/52] fix: restore addresses in the attribute cache as
 addresses

---
 zigpy/appdb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 13795b2..ddbbe8b 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -730,6 +730,12 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 if cluster_id not in clusters:
                     continue
 
+                # Addresses are stored as text
+                attr_def = clusters[cluster_id].attributes.get(attr_id)
+
+                if isinstance(value, str) and attr_def and attr_def.type is t.EUI64:
+                    value = t.EUI64.convert(value)
+
                 clusters[cluster_id]._attr_cache[attr_id] = value
                 clusters[cluster_id]._attr_last_updated[attr_id] = (
                     datetime.fromtimestamp(last_updated, timezone.utc)
-- 
2.43.0


From 71bc040d1223b97c57824873ce8fbd6f8d431362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 30/52] fix: create the tables of a new database atomically

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index ddbbe8b..537c994 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -951,7 +951,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From cf5a9bc74619a553f6a74fdbb3053e15b2c6760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 31/52] fix: delete the routes of removed devices from the
 database

---
 zigpy/appdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 537c994..b2e2426 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -447,6 +447,11 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+
+        # Unlike all other tables, `routes` does not reference the `devices` table
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
-- 
2.43.0


From e5a5046ee5676dee325c4a5602578ed6dbc0d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 32/52] fix: roll back events that fail to be persisted

---
 zigpy/appdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index b2e2426..64e3136 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -183,12 +183,21 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     args,
                     str(exc),
                 )
+                await self._rollback()
             except Exception as ex:  # noqa: BLE001
                 LOGGER.error(
                     "Unexpected error while processing %s(%s): %s", cb_name, args, ex
                 )
+                await self._rollback()
             self._callback_handlers.task_done()
 
+    async def _rollback(self) -> None:
+        """Undo the statements of an event that could not be persisted completely."""
+        try:
+            await self._db.rollback()
+        except Exception as exc:  # noqa: BLE001
+            LOGGER.error("Failed to roll back: %s", exc)
+
     async def shutdown(self) -> None:
         """Shutdown connection."""
         self.running = False
-- 
2.43.0


From fce26ea750cd0769e84a1385a9a2421eadd67fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 33/52] fix: a stored address attribute that is not an address
 does not prevent loading

---
 zigpy/appdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 64e3136..f845f98 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -744,11 +744,12 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 if cluster_id not in clusters:
                     continue
 
-                # Addresses are stored as text
+                # Addresses are stored as text. Text that is not an address is left alone.
                 attr_def = clusters[cluster_id].attributes.get(attr_id)
 
                 if isinstance(value, str) and attr_def and attr_def.type is t.EUI64:
-                    value = t.EUI64.convert(value)
+                    with contextlib.suppress(ValueError, AssertionError):
+                        value = t.EUI64.convert(value)
 
                 clusters[cluster_id]._attr_cache[attr_id] = value
                 clusters[cluster_id]._attr_last_updated[attr_id] = (
-- 
2.43.0


From 31a2281bb2baf2a023cf4f86eca2b08bccaad032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 34/52] fix: migrating from schema v4 dropped inactive
 endpoints

---
 zigpy/appdb.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index f845f98..6afca11 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -1114,6 +1114,18 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             errors="warn",
         )
 
+        # Inactive endpoints have neither a profile nor a device type
+        await self.execute(
+            """
+            INSERT INTO endpoints_v5
+            SELECT ieee, endpoint_id, coalesce(profile_id, ?), coalesce(device_type, ?), status
+            FROM endpoints
+            WHERE (profile_id IS NULL OR device_type IS NULL)
+            AND ieee IN (SELECT ieee FROM devices_v5)
+            """,
+            (UNKNOWN_ENDPOINT_INFO, UNKNOWN_ENDPOINT_INFO),
+        )
+
     async def _migrate_to_v6(self):
         """Schema v6 relaxed the `attribute_cache` table schema to ignore endpoints"""
 
-- 
2.43.0


From a4baf3159ab43245296cc3718adb874fb105ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 35/52] fix: a cancelled OTA update does not report progress
 any more

---
 zigpy/ota/manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/ota/manager.py b/zigpy/ota/manager.py
index 5f86cde..b989237 100644
--- a/zigpy/ota/manager.py
+++ b/zigpy/ota/manager.py
@@ -91,6 +91,11 @@ class OTAManager:
     def __exit__(self, *exc_details) -> None:
         self.stack.close()
 
+        # The update may have been cancelled: responses that are still being sent must
+        # not report progress or restart the stall timer
+        self._stall_timer.cancel()
+        self._upgrade_end_future.cancel()
+
     def _stall_callback(self) -> None:
         """Handle the stall timer expiring."""
         self._finish(foundation.Status.TIMEOUT)
-- 
2.43.0


From ca8908e3039f867057b7639656ea9002799c8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 36/52] fix: an OTA update succeeded even if the new version
 cannot be read

---
 zigpy/device.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 0d642fc..4a85765 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -616,9 +616,14 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         ota.update_attribute(Ota.AttributeDefs.current_file_version.id, None)
 
         await asyncio.sleep(AFTER_OTA_ATTR_READ_DELAY)
-        await OTA_RETRY_DECORATOR(ota.read_attributes)(
-            [Ota.AttributeDefs.current_file_version.name]
-        )
+
+        try:
+            await OTA_RETRY_DECORATOR(ota.read_attributes)(
+                [Ota.AttributeDefs.current_file_version.name]
+            )
+        except Exception as exc:  # noqa: BLE001
+            # The update itself succeeded
+            self.debug("Failed to read the new firmware version", exc_info=exc)
 
         return result
 
-- 
2.43.0


From d6f072d68b08de73362f8d45cbe121d2f0ff6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 37/52] fix: OTA images with an inconsistent header length or
 image size are invalid

---
 zigpy/ota/image.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a9e5296..c2578c2 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -181,9 +181,18 @@ class OTAImage(t.Struct, BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[OTAImage, bytes]:
         hdr, data = OTAImageHeader.deserialize(data)
+
+        if hdr.header_length != len(hdr.serialize()):
+            raise ValueError(
+                f"Header length is invalid: expected {len(hdr.serialize())} bytes,"
+                f" got {hdr.header_length} bytes"
+            )
+
         elements_len = hdr.image_size - hdr.header_length
 
-        if elements_len > len(data):
+        if elements_len < 0:
+            raise ValueError(f"Image size is too small: {hdr.image_size} bytes")
+        elif elements_len > len(data):
             raise ValueError(f"Data is too short for {cls}")
 
         image = cls(header=hdr, subelements=[])
-- 
2.43.0


From bea35f3022aea780ff46795797c3a737df46e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 38/52] fix: an IKEA OTA image with an unexpected structure is
 a value error

---
 zigpy/ota/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index c2578c2..76cf074 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -293,8 +293,8 @@ def parse_ota_image(data: bytes) -> tuple[BaseOTAImage, bytes]:
             image.header.image_size += len(rest)
 
             # No other structure has been observed
-            assert len(image.subelements) == 1
-            assert image.subelements[0].tag_id == ElementTagId.UPGRADE_IMAGE
+            if [e.tag_id for e in image.subelements] != [ElementTagId.UPGRADE_IMAGE]:
+                raise ValueError("Unexpected structure of IKEA OTA image")
 
             image.subelements[0].data += rest
             rest = b""
-- 
2.43.0


From 25fc1456fc71d9d0cda2255ad331edc907808d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 39/52] fix: a Hue OTA image smaller than its header is invalid

---
 zigpy/ota/image.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index 76cf074..4aebebf 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -233,7 +233,12 @@ class HueSBLOTAImage(BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[Self, bytes]:
         header, remaining_data = OTAImageHeader.deserialize(data)
-        firmware = remaining_data[: header.image_size - len(header.serialize())]
+        firmware_len = header.image_size - len(header.serialize())
+
+        if firmware_len < 0:
+            raise ValueError(f"Image size is too small: {header.image_size} bytes")
+
+        firmware = remaining_data[:firmware_len]
 
         if len(data) < header.image_size:
             raise ValueError(
-- 
2.43.0


From bfcaee578900897a1293829297de4482d8f4283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 40/52] fix: OTA images whose contents turn out to be
 incompatible are not offered

---
 zigpy/ota/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 142b728..98eb4e2 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -470,6 +470,12 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
+            # The contents may restrict compatibility further than the metadata does
+            if not img.check_compatibility(device, query_cmd):
+                _LOGGER.debug("Image contents are not compatible, ignoring: %s", img)
+                upgrades.pop(img.metadata)
+                continue
+
             upgrades[img.metadata] = img
 
         # As a final pass, identify images with identical versions and specificity but
-- 
2.43.0


From 3606a80184eee9214727645b291d8be62c6298a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 41/52] fix: Refuse attribute values of unknown types with a
 ValueError

---
 zigpy/zcl/foundation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 9591f2d..360aa81 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -108,10 +108,17 @@ class TypeValue:
     def serialize(self) -> bytes:
         return self.type.to_bytes(1, "little") + self.value.serialize()
 
+    @staticmethod
+    def _python_type(data_type: t.uint8_t) -> type:
+        try:
+            return DataType.from_type_id(data_type).python_type
+        except KeyError as e:
+            raise ValueError(f"Unknown ZCL type: 0x{data_type:02X}") from e
+
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[TypeValue, bytes]:
         data_type, data = t.uint8_t.deserialize(data)
-        python_type = DataType.from_type_id(data_type).python_type
+        python_type = cls._python_type(data_type)
         value, data = python_type.deserialize(data)
 
         return cls(type=data_type, value=value), data
@@ -128,7 +135,7 @@ class TypedCollection(TypeValue):
     @classmethod
     def deserialize(cls, data):
         data_type, data = t.uint8_t.deserialize(data)
-        python_type = DataType.from_type_id(data_type).python_type
+        python_type = cls._python_type(data_type)
         values, data = t.LVList[python_type, t.uint16_t].deserialize(data)
 
         return cls(type=data_type, value=values), data
-- 
2.43.0


From eb44496b61648a14b7b95e4b18d706a92ef7caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 42/52] fix: Allow copying and printing reporting
 configurations without a reportable change

---
 zigpy/zcl/foundation.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 360aa81..350f6f1 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -765,12 +765,21 @@ class AttributeReportingConfig:
             self.direction: ReportingDirection = other.direction
             self.attrid: t.uint16_t = other.attrid
             if self.direction == ReportingDirection.ReceiveReports:
-                self.timeout: int = other.timeout
+                if hasattr(other, "timeout"):
+                    self.timeout: int = other.timeout
                 return
+
+            # Unsuccessful statuses only contain the direction and the attribute
+            if not hasattr(other, "datatype"):
+                return
+
             self.datatype: DataTypeId = other.datatype
             self.min_interval: int = other.min_interval
             self.max_interval: int = other.max_interval
-            self.reportable_change: int = other.reportable_change
+
+            # Discrete types have no reportable change
+            if hasattr(other, "reportable_change"):
+                self.reportable_change: int = other.reportable_change
 
     def serialize(self, *, _only_dir_and_attrid: bool = False) -> bytes:
         r = ReportingDirection(self.direction).serialize()
@@ -839,13 +848,14 @@ class AttributeReportingConfig:
         r += f", attrid=0x{self.attrid:04X}"
 
         if self.direction == ReportingDirection.ReceiveReports:
-            r += f", timeout={self.timeout}"
+            if hasattr(self, "timeout"):
+                r += f", timeout={self.timeout}"
         elif hasattr(self, "datatype"):
             r += f", datatype={self.datatype}"
             r += f", min_interval={self.min_interval}"
             r += f", max_interval={self.max_interval}"
 
-            if self.reportable_change is not None:
+            if getattr(self, "reportable_change", None) is not None:
                 r += f", reportable_change={self.reportable_change}"
 
         r += ")"
-- 
2.43.0


From 8f18177020bbe55c74dee3245177da888ed332ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 43/52] fix: Encode and decode small, large, and inexact half
 and single precision floats

---
 zigpy/types/basic.py | 53 +++++++-------------------------------------
 1 file changed, 8 insertions(+), 45 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 3599fd2..1f08f73 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -639,6 +639,7 @@ class BaseFloat(float):
     _exponent_bits = None
     _fraction_bits = None
     _size = None
+    _struct_format = None
 
     def __init_subclass__(cls, exponent_bits, fraction_bits):
         size_bits = 1 + exponent_bits + fraction_bits
@@ -647,60 +648,22 @@ class BaseFloat(float):
         cls._exponent_bits = exponent_bits
         cls._fraction_bits = fraction_bits
         cls._size = size_bits // 8
-
-    @staticmethod
-    def _convert_format(*, src: BaseFloat, dst: BaseFloat, n: int) -> int:
-        """Converts an integer representing a float from one format into another. Note:
-
-        1. Format is assumed to be little endian: 0b[sign bit] [exponent] [fraction]
-        2. Truncates/extends the exponent, preserving the special cases of all 1's
-        and all 0's.
-        3. Truncates/extends the fractional bits from the right, allowing lossless
-        conversion to a "bigger" representation.
-        """
-
-        src_sign = n >> (src._exponent_bits + src._fraction_bits)
-        src_frac = n & ((1 << src._fraction_bits) - 1)
-        src_biased_exp = (n >> src._fraction_bits) & ((1 << src._exponent_bits) - 1)
-        src_exp = src_biased_exp - 2 ** (src._exponent_bits - 1)
-
-        if src_biased_exp == (1 << src._exponent_bits) - 1:
-            dst_biased_exp = 2**dst._exponent_bits - 1
-        elif src_biased_exp == 0:
-            dst_biased_exp = 0
-        else:
-            dst_min_exp = 2 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
-            dst_max_exp = 2 ** (dst._exponent_bits - 1) - 2  # Can't be all ones
-            dst_exp = min(max(dst_min_exp, src_exp), dst_max_exp)
-            dst_biased_exp = dst_exp + 2 ** (dst._exponent_bits - 1)
-
-        # We add/remove LSBs
-        if src._fraction_bits > dst._fraction_bits:
-            dst_frac = src_frac >> (src._fraction_bits - dst._fraction_bits)
-        else:
-            dst_frac = src_frac << (dst._fraction_bits - src._fraction_bits)
-
-        return (
-            src_sign << (dst._exponent_bits + dst._fraction_bits)
-            | dst_biased_exp << (dst._fraction_bits)
-            | dst_frac
-        )
+        cls._struct_format = {2: "<e", 4: "<f", 8: "<d"}[cls._size]
 
     def serialize(self) -> bytes:
-        return self._convert_format(
-            src=Double, dst=self, n=int.from_bytes(struct.pack("<d", self), "little")
-        ).to_bytes(self._size, "little")
+        try:
+            return struct.pack(self._struct_format, self)
+        except OverflowError as e:
+            raise ValueError(f"{self} is too large for {type(self)}") from e
 
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[BaseFloat, bytes]:
         if len(data) < cls._size:
             raise ValueError(f"Data is too short to contain {cls._size} bytes")
 
-        double_bytes = cls._convert_format(
-            src=cls, dst=Double, n=int.from_bytes(data[: cls._size], "little")
-        ).to_bytes(Double._size, "little")
+        (value,) = struct.unpack(cls._struct_format, data[: cls._size])
 
-        return cls(struct.unpack("<d", double_bytes)[0]), data[cls._size :]
+        return cls(value), data[cls._size :]
 
 
 class Half(BaseFloat, exponent_bits=5, fraction_bits=10):
-- 
2.43.0


From b9b6afe24b638c278e53c8ebd12e7374375532e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 44/52] fix: The invalid length of a long character string is
 0xFFFF

---
 zigpy/types/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 1f08f73..efe4992 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -938,6 +938,7 @@ class CharacterString(str):
 
 class LongCharacterString(CharacterString):
     _prefix_length = 2
+    _invalid_length = (1 << (8 * _prefix_length)) - 1
 
 
 def LimitedCharString(max_len):  # noqa: N802
-- 
2.43.0


From f27cfe5d0b5cb3d86c1489bf372d5879b7f1c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 45/52] fix: Copies of an invalid character string are invalid

---
 zigpy/types/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index efe4992..613912c 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -897,7 +897,7 @@ class CharacterString(str):
 
     def __new__(cls, value: str = "", *, invalid: bool = False) -> Self:
         instance = super().__new__(cls, value)
-        instance.invalid = invalid
+        instance.invalid = invalid or getattr(value, "invalid", False)
         instance.raw = value
 
         return instance
-- 
2.43.0


From bc3a10029b301315dbfe350d000e8a3d7e47b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 46/52] fix: Profile and cluster IDs in End_Device_Bind_req are
 16 bits

---
 zigpy/zdo/types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 52ad17f..93e54a7 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -591,9 +591,9 @@ CLUSTERS = {
         ("BindingTarget", t.uint16_t),
         ("SrcAddress", t.EUI64),
         ("SrcEndpoint", t.uint8_t),
-        ("ProfileID", t.uint8_t),
-        ("InClusterList", t.LVList[t.uint8_t]),
-        ("OutClusterList", t.LVList[t.uint8_t]),
+        ("ProfileID", t.uint16_t),
+        ("InClusterList", t.LVList[t.uint16_t]),
+        ("OutClusterList", t.LVList[t.uint16_t]),
     ),
     ZDOCmd.Bind_req: (
         ("SrcAddress", t.EUI64),
-- 
2.43.0


From 74eb2dc109013a49d82f07738882ea77403c53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 47/52] fix: The cache address in Find_node_cache_rsp is a
 network address

---
 zigpy/zdo/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 93e54a7..bf817e9 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -676,7 +676,7 @@ CLUSTERS = {
     ZDOCmd.Active_EP_store_rsp: (STATUS,),
     ZDOCmd.Simple_Desc_store_rsp: (STATUS,),
     ZDOCmd.Remove_node_cache_rsp: (STATUS,),
-    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.EUI64), NWK, IEEE),
+    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.NWK), NWK, IEEE),
     ZDOCmd.Extended_Simple_Desc_rsp: (
         STATUS,
         NWK,
-- 
2.43.0


From 4d6ff94f984c8eda614312a3346d541fe1c8319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 48/52] fix: Allow lists of values without data to be encoded

---
 zigpy/types/named.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/types/named.py b/zigpy/types/named.py
index ddd170f..98fd681 100644
--- a/zigpy/types/named.py
+++ b/zigpy/types/named.py
@@ -179,6 +179,9 @@ class Group(basic.uint16_t, repr="hex"):
 
 
 class NoData:
+    def __init__(self, value: NoData | None = None) -> None:
+        pass
+
     @classmethod
     def deserialize(cls, data):
         return cls(), data
-- 
2.43.0


From 5020b1a8413907ce18591d9c4f922968132a9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 49/52] fix: Client clusters added by a v2 quirk are client
 clusters

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 96f4d3716dafbb449539ecfbdff83fdf40e29381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 50/52] fix: Constant attributes of clusters added by a v2
 quirk can be read

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index bcdcccd..d15d527 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -168,9 +168,11 @@ class AddsMetadata:
         cluster = add_cluster(cluster_id, cluster)
 
         if self.constant_attributes:
+            # Constant attributes are looked up by their IDs
             cluster._CONSTANT_ATTRIBUTES = {
-                attribute.name: value
+                key: value
                 for attribute, value in self.constant_attributes.items()
+                for key in (attribute.id, attribute.name)
             }
 
 
-- 
2.43.0


From 694b4406aadc045c90fc47b38cb77cfa7c8dc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 51/52] fix: Read the network manager of an open coordinator
 backup as it is written

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index c3ef24e..fad494d 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -359,7 +359,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From 0fc1c5f7c55ed06b6477b2e1b81d1b85be48a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 52/52] fix: Keep the creation time of an open coordinator
 backup with a date in its metadata

---
 zigpy/backups.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index fad494d..4e5e303 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -431,12 +431,14 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
         # XXX: Devices that are not children, have no NWK address, and have no link key
         #      are effectively ignored, since there is no place to write them
 
-    if "date" in internal:
+    if "creation_time" in internal:
+        # Zigpy format
+        creation_time = internal["creation_time"]
+    elif "date" in internal:
         # Z2M format
         creation_time = internal["date"].replace("Z", "+00:00")
     else:
-        # Zigpy format
-        creation_time = internal.get("creation_time", "1970-01-01T00:00:00+00:00")
+        creation_time = "1970-01-01T00:00:00+00:00"
 
     return NetworkBackup(
         version=BACKUP_FORMAT_VERSION,
-- 
2.43.0

