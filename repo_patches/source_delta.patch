From de8cea1c0aa6874d208698f06fd6db933aeec015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 01/57] fix: semaphore loses wakeups and its queue order when
 acquirers are cancelled

A waiter woken and cancelled before it was resumed left the wakeup flag set, so
a free semaphore could block everyone. Cancelling a waiter that had not been
woken woke another one without any capacity being free, which then lost its
place in the queue, and cancelled waiters kept being counted. Capacity is now
handed over when a waiter is woken.
---
 zigpy/datastructures.py | 57 ++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..f0447e1 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -41,7 +41,6 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._comparison_counter: int = 0
 
         self._waiters: list[tuple[int, int, asyncio.Future]] = []
-        self._wakeup_scheduled: bool = False
 
     @property
     @functools.cache
@@ -49,13 +48,14 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         return asyncio.get_running_loop()
 
     def _wake_up_next(self) -> None:
-        while self._waiters:
+        """Hand free capacity over to the next waiters, in order of priority."""
+        while self._value > 0 and self._waiters:
             _, _, waiter = heapq.heappop(self._waiters)
 
             if not waiter.done():
+                # The waiter owns its share from now on, even before it is resumed
+                self._value -= 1
                 waiter.set_result(None)
-                self._wakeup_scheduled = True
-                return
 
     @property
     def value(self) -> int:
@@ -76,8 +76,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._max_value += delta
 
         # Wake up any pending waiters
-        for _ in range(min(len(self._waiters), max(0, delta))):
-            self._wake_up_next()
+        self._wake_up_next()
 
     @property
     def num_waiting(self) -> int:
@@ -96,28 +95,34 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
-        # _wakeup_scheduled is set if *another* task is scheduled to wakeup
-        # but its acquire() is not resumed yet
-        while self._wakeup_scheduled or self._value <= 0:
-            # To ensure that our objects don't have to be themselves comparable, we
-            # maintain a global count and increment it on every insert. This way,
-            # the tuple `(-priority, count, item)` will never have to compare `item`.
-            self._comparison_counter += 1
-
-            fut = self._loop.create_future()
-            obj = (-priority, self._comparison_counter, fut)
-            heapq.heappush(self._waiters, obj)
-
-            try:
-                await fut
-                # reset _wakeup_scheduled *after* waiting for a future
-                self._wakeup_scheduled = False
-            except asyncio.CancelledError:
+        # Capacity is handed over to waiters as soon as there is any, nobody is waiting
+        # if there is some left
+        if self._value > 0:
+            self._value -= 1
+            return True
+
+        # To ensure that our objects don't have to be themselves comparable, we
+        # maintain a global count and increment it on every insert. This way,
+        # the tuple `(-priority, count, item)` will never have to compare `item`.
+        self._comparison_counter += 1
+
+        fut = self._loop.create_future()
+        obj = (-priority, self._comparison_counter, fut)
+        heapq.heappush(self._waiters, obj)
+
+        try:
+            await fut
+        except asyncio.CancelledError:
+            if not fut.cancelled():
+                # We were handed our share and cancelled before being resumed
+                self._value += 1
                 self._wake_up_next()
-                raise
+            elif obj in self._waiters:
+                self._waiters.remove(obj)
+                heapq.heapify(self._waiters)
+
+            raise
 
-        assert self._value > 0
-        self._value -= 1
         return True
 
     def release(self) -> None:
-- 
2.43.0


From 34a90156a17399b0adb0dab33443c246309bf348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 02/57] fix: devices with an inactive endpoint could not be
 persisted

Endpoints that answer NOT_ACTIVE have no profile and device type, which
violates the NOT NULL constraints of the endpoints table: saving the device
failed halfway, losing its remaining endpoints, clusters and attributes.
---
 zigpy/appdb.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..9389ef7 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -486,8 +486,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             (
                 device.ieee,
                 ep.endpoint_id,
-                ep.profile_id,
-                ep.device_type,
+                # Inactive endpoints have no descriptor but the columns are `NOT NULL`
+                ep.profile_id if ep.profile_id is not None else 0xFFFF,
+                ep.device_type if ep.device_type is not None else 0xFFFF,
                 ep.status,
             )
             for ep in device.non_zdo_endpoints
@@ -800,9 +801,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             async for ieee, epid, profile_id, device_type, status in cursor:
                 dev = self._application.get_device(ieee)
                 ep = dev.add_endpoint(epid)
-                ep.profile_id = profile_id
                 ep.status = zigpy.endpoint.Status(status)
 
+                if ep.status == zigpy.endpoint.Status.ENDPOINT_INACTIVE:
+                    continue
+
+                ep.profile_id = profile_id
+
                 if profile_id == zigpy.profiles.zha.PROFILE_ID:
                     ep.device_type = zigpy.profiles.zha.DeviceType(device_type)
                 elif profile_id == zigpy.profiles.zll.PROFILE_ID:
-- 
2.43.0


From b76c2f6644449c90d3ce89589ac081257c1af22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 03/57] fix: interviews interrupted while reading the model are
 never finished

Once all endpoints were known the device counted as initialized: if reading
the model and manufacturer then failed, or the device changed its address
meanwhile, it was announced without them or never announced at all.
---
 zigpy/application.py | 2 +-
 zigpy/device.py      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..447bab4 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -580,7 +580,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         if new_join:
             self.listener_event("device_joined", dev)
             dev.schedule_initialize()
-        elif not dev.is_initialized:
+        elif not dev.is_initialized or dev.status == zigpy.device.Status.ZDO_INIT:
             # Re-initialize partially-initialized devices but don't emit "device_joined"
             dev.schedule_initialize()
         elif handle_rejoin:
diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..0ad837f 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -201,8 +201,9 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self._initialize_task.cancel()  # type:ignore[union-attr]
 
     def schedule_initialize(self) -> asyncio.Task | None:
-        # Already-initialized devices don't need to be re-initialized
-        if self.is_initialized:
+        # Already-initialized devices don't need to be re-initialized, unless their
+        # initialization was interrupted after all endpoints were discovered
+        if self.is_initialized and self.status != Status.ZDO_INIT:
             self.debug("Skipping initialization, device is fully initialized")
             self._application.device_initialized(self)
             return None
-- 
2.43.0


From 8f49f58cc2f06fbdd00698cbe3f243add6289494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 04/57] fix: retrying an interview forgets that an endpoint is
 inactive

Initializing an inactive endpoint again marked it as active although it has no
descriptor, so it was queried over and over and persisted as active.
---
 zigpy/endpoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b4ca4f2..f439f6d 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -58,7 +58,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
     async def initialize(self) -> None:
         self.info("Discovering endpoint information")
 
-        if self.profile_id is not None or self.status == Status.ENDPOINT_INACTIVE:
+        if self.status == Status.ENDPOINT_INACTIVE:
+            self.info("Endpoint is known to be inactive")
+            return
+
+        if self.profile_id is not None:
             self.info("Endpoint descriptor already queried")
         else:
             status, _, sd = await self._device.zdo.Simple_Desc_req(
-- 
2.43.0


From 115865e964549c05677e73c45d4f24525b7102e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 05/57] fix: requests are completed by unrelated packets with
 the same sequence

Anything from the device with the sequence number of a pending request counted
as its response: attribute reports, notifications from other clusters and late
responses to older requests (sequences restart with the application).
---
 zigpy/device.py | 30 +++++++++++++++++++++++++-----
 zigpy/util.py   | 18 +++++++++++++++---
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 0ad837f..55fb636 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -353,6 +353,22 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             timeout = APS_REPLY_TIMEOUT_EXTENDED
             extended_timeout = True
 
+        def is_response(packet: t.ZigbeePacket, hdr: foundation.ZCLHeader) -> bool:
+            # Sequence numbers are not unique: devices pick their own for the commands
+            # they send and late responses can reuse one
+            if dst_ep == zdo.ZDO_ENDPOINT:
+                return packet.cluster_id == cluster | 0x8000
+
+            if packet.dst_ep == zdo.ZDO_ENDPOINT or packet.cluster_id != cluster:
+                return False
+
+            if hdr.frame_control.is_general:
+                return hdr.command_id != foundation.GeneralCommand.Report_Attributes
+
+            # Only cluster commands are responded to with other cluster commands
+            req_hdr, _ = foundation.ZCLHeader.deserialize(data)
+            return not req_hdr.frame_control.is_general
+
         # Use a lambda so we don't leave the coroutine unawaited in case of an exception
         send_request = lambda: self._application.request(  # noqa: E731
             device=self,
@@ -375,7 +391,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 return None
 
             # Only create a pending request if we are expecting a reply
-            with self._pending.new(sequence) as req:
+            with self._pending.new(sequence, is_response) as req:
                 await send_request()
 
                 async with asyncio_timeout(timeout):
@@ -496,10 +512,14 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             error = None
 
         # Resolve the future if this is a response to a request
-        if hdr.tsn in self._pending and (
-            hdr.direction == foundation.Direction.Server_to_Client
-            if isinstance(hdr, foundation.ZCLHeader)
-            else hdr.is_reply
+        if (
+            hdr.tsn in self._pending
+            and (
+                hdr.direction == foundation.Direction.Server_to_Client
+                if isinstance(hdr, foundation.ZCLHeader)
+                else hdr.is_reply
+            )
+            and self._pending[hdr.tsn].matches(packet, hdr)
         ):
             future = self._pending[hdr.tsn]
 
diff --git a/zigpy/util.py b/zigpy/util.py
index 08fed28..4566e32 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -258,9 +258,15 @@ T = typing.TypeVar("T")
 class Request(typing.Generic[T]):
     """Request context manager."""
 
-    def __init__(self, pending: dict, sequence: T) -> None:
+    def __init__(
+        self,
+        pending: dict,
+        sequence: T,
+        matcher: typing.Callable[..., bool] | None = None,
+    ) -> None:
         """Init context manager for requests."""
         self._pending = pending
+        self._matcher = matcher
         self._result: asyncio.Future = asyncio.Future()
         self._sequence = sequence
 
@@ -273,6 +279,10 @@ class Request(typing.Generic[T]):
         """Request sequence."""
         return self._sequence
 
+    def matches(self, *args) -> bool:
+        """Check if something with the same sequence is a response to this request."""
+        return self._matcher is None or self._matcher(*args)
+
     def __enter__(self) -> Self:
         """Return context manager."""
         self._pending[self.sequence] = self
@@ -293,13 +303,15 @@ class Request(typing.Generic[T]):
 
 
 class Requests(dict, typing.Generic[T]):
-    def new(self, sequence: T) -> Self[T]:
+    def new(
+        self, sequence: T, matcher: typing.Callable[..., bool] | None = None
+    ) -> Self[T]:
         """Wrap new request into a context manager."""
         if sequence in self:
             LOGGER.debug("Duplicate %s TSN: pending %s", sequence, self)
             raise ControllerException(f"Duplicate TSN: {sequence}")
 
-        return Request(self, sequence)
+        return Request(self, sequence, matcher)
 
 
 class CatchingTaskMixin(LocalLogMixin):
-- 
2.43.0


From 5147a5d601900bd2cdfb39034ff166eecb722c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 06/57] fix: removed devices stay members of groups and their
 routes are restored

---
 zigpy/appdb.py       | 5 +++++
 zigpy/application.py | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 9389ef7..00f03fd 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -444,6 +444,11 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+
+        # Unlike the other tables, `routes` does not reference `devices`
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
diff --git a/zigpy/application.py b/zigpy/application.py
index 447bab4..8ed4840 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -514,6 +514,15 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                     parent.zdo.Mgmt_Leave_req(dev.ieee, opts)
                 )
 
+        # A removed device is no longer a part of any group or of the topology
+        for group in self.groups.values():
+            for ep in list(group.members.values()):
+                if ep.device.ieee == dev.ieee:
+                    group.remove_member(ep)
+
+        self.topology.neighbors.pop(dev.ieee, None)
+        self.topology.routes.pop(dev.ieee, None)
+
         self.listener_event("device_removed", dev)
 
     async def _remove_device(
-- 
2.43.0


From 9a4f1bf274ce6c9d7114727d6f2f881d0481924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 07/57] fix: names set by quirks are lost on restart

---
 zigpy/appdb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 00f03fd..4a338dd 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -746,6 +746,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     value,
                 )
 
+                # Quirks can override the manufacturer and model of the device
+                if isinstance(dev, zigpy.quirks.BaseCustomDevice):
+                    continue
+
                 # Populate the device's manufacturer and model attributes
                 if (
                     cluster_id == Basic.cluster_id
-- 
2.43.0


From de38250d894e4104d437d449cca18cb557d87215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 08/57] fix: IEEE address attributes are restored as text

---
 zigpy/appdb.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 4a338dd..2322d7b 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -732,6 +732,17 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 if cluster_id not in clusters:
                     continue
 
+                # IEEE addresses are stored as text
+                attr_def = clusters[cluster_id].attributes.get(attr_id)
+
+                if (
+                    isinstance(value, str)
+                    and attr_def is not None
+                    and attr_def.type is t.EUI64
+                ):
+                    with contextlib.suppress(ValueError, AssertionError):
+                        value = t.EUI64.convert(value)
+
                 clusters[cluster_id]._attr_cache[attr_id] = value
                 clusters[cluster_id]._attr_last_updated[attr_id] = (
                     datetime.fromtimestamp(last_updated, timezone.utc)
-- 
2.43.0


From fd763e0c2b4e7452e051a524b6c3b1757df436ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 09/57] fix: relays received before a device is saved are never
 persisted

---
 zigpy/appdb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 2322d7b..4183abe 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -270,13 +270,16 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if relays is None:
             await self.execute(f"DELETE FROM relays{DB_V} WHERE ieee = ?", (ieee,))
         else:
-            q = f"""INSERT INTO relays{DB_V} VALUES (:ieee, :relays)
-                        ON CONFLICT (ieee)
-                        DO UPDATE SET relays=excluded.relays WHERE relays != :relays"""
-            await self.execute(q, {"ieee": ieee, "relays": relays.serialize()})
+            await self._upsert_relays(ieee, relays)
 
         await self._db.commit()
 
+    async def _upsert_relays(self, ieee: t.EUI64, relays: t.Relays) -> None:
+        q = f"""INSERT INTO relays{DB_V} VALUES (:ieee, :relays)
+                    ON CONFLICT (ieee)
+                    DO UPDATE SET relays=excluded.relays WHERE relays != :relays"""
+        await self.execute(q, {"ieee": ieee, "relays": relays.serialize()})
+
     def attribute_updated(
         self,
         cluster: zigpy.typing.ClusterType,
@@ -475,6 +478,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if device.node_desc is not None:
             await self._save_node_descriptor(device)
 
+        # Relays can be received before the device is saved
+        if device.relays is not None:
+            await self._upsert_relays(device.ieee, device.relays)
+
         if isinstance(device, zigpy.quirks.BaseCustomDevice):
             await self._db.commit()
             return
-- 
2.43.0


From 31ad9e4fdf9a0441ff14f40ddd55c57ba2120161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 10/57] fix: devices that are being removed are saved again or
 lost when they rejoin

---
 zigpy/application.py | 33 +++++++++++++++++++++++++--------
 zigpy/device.py      |  4 ++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 8ed4840..841f81d 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -71,6 +71,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         self._groups = zigpy.group.Groups(self)
         self._listeners = {}
         self._send_sequence = 0
+        self._devices_being_removed: set[t.EUI64] = set()
         self._tasks: set[asyncio.Future[Any]] = set()
 
         self._watchdog_task: asyncio.Task | None = None
@@ -486,6 +487,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         dev.cancel_initialization()
 
         LOGGER.info("Removing device 0x%04x (%s)", dev.nwk, ieee)
+        self._devices_being_removed.add(ieee)
         self.create_task(
             self._remove_device(dev, remove_children=remove_children, rejoin=rejoin),
             f"remove_device-nwk={dev.nwk!r}-ieee={ieee!r}",
@@ -514,16 +516,18 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                     parent.zdo.Mgmt_Leave_req(dev.ieee, opts)
                 )
 
-        # A removed device is no longer a part of any group or of the topology
+        self._forget_device(dev)
+        self.listener_event("device_removed", dev)
+
+    def _forget_device(self, device: zigpy.device.Device) -> None:
+        """Remove a device from all groups and from the topology."""
         for group in self.groups.values():
             for ep in list(group.members.values()):
-                if ep.device.ieee == dev.ieee:
+                if ep.device.ieee == device.ieee:
                     group.remove_member(ep)
 
-        self.topology.neighbors.pop(dev.ieee, None)
-        self.topology.routes.pop(dev.ieee, None)
-
-        self.listener_event("device_removed", dev)
+        self.topology.neighbors.pop(device.ieee, None)
+        self.topology.routes.pop(device.ieee, None)
 
     async def _remove_device(
         self,
@@ -539,10 +543,14 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
+        except Exception as ex:  # noqa: BLE001
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
-        self.devices.pop(device.ieee, None)
+        # The device may have joined again while it was asked to leave
+        if self.devices.get(device.ieee) is device:
+            self._devices_being_removed.discard(device.ieee)
+            self.devices.pop(device.ieee)
+            self._forget_device(device)
 
     def deserialize(
         self,
@@ -565,6 +573,15 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
         ieee = t.EUI64(ieee)
 
+        if ieee in self._devices_being_removed:
+            if not handle_rejoin:
+                LOGGER.debug("Ignoring device %s, it is being removed", ieee)
+                return
+
+            # A removed device that joins again is a new device
+            self._devices_being_removed.discard(ieee)
+            self.devices.pop(ieee, None)
+
         try:
             dev = self.get_device(ieee=ieee)
         except KeyError:
diff --git a/zigpy/device.py b/zigpy/device.py
index 55fb636..83e899e 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -208,6 +208,10 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self._application.device_initialized(self)
             return None
 
+        if self.ieee in self._application._devices_being_removed:
+            self.debug("Skipping initialization, device is being removed")
+            return None
+
         self.debug("Scheduling initialization")
 
         self.cancel_initialization()
-- 
2.43.0


From 24110163415f2fa4c9755e86386cf83203ab83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 11/57] fix: routes of a removed device are saved by a running
 scan

---
 zigpy/appdb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 4183abe..edd9e42 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -385,10 +385,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
     async def _routes_updated(self, ieee: t.EUI64, routes: list[zdo_t.Route]) -> None:
         await self.execute(f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", [ieee])
 
-        rows = [(ieee, *route.as_tuple()) for route in routes]
+        rows = [(ieee, *route.as_tuple(), ieee) for route in routes]
 
+        # `routes` does not reference `devices`: ignore removed devices explicitly
         await self._db.executemany(
-            f"INSERT INTO routes{DB_V} VALUES (?,?,?,?,?,?,?,?)", rows
+            f"""INSERT INTO routes{DB_V} SELECT ?,?,?,?,?,?,?,?
+                    WHERE EXISTS (SELECT 1 FROM devices{DB_V} WHERE ieee=?)""",
+            rows,
         )
         await self._db.commit()
 
-- 
2.43.0


From d4c413b49573e7f99624db6c706d597c17d3cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 12/57] fix: a database whose creation was interrupted cannot
 be opened

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index edd9e42..e18d21b 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -969,7 +969,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From ed4913648f936121ecb645307b7d7ee0190b53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 13/57] fix: partial changes of a failed database event are
 committed by the next one

---
 zigpy/appdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index e18d21b..1f68566 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -180,12 +180,21 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     args,
                     str(exc),
                 )
+                await self._rollback()
             except Exception as ex:  # noqa: BLE001
                 LOGGER.error(
                     "Unexpected error while processing %s(%s): %s", cb_name, args, ex
                 )
+                await self._rollback()
             self._callback_handlers.task_done()
 
+    async def _rollback(self) -> None:
+        """Undo the partial changes of a failed event."""
+        try:
+            await self._db.rollback()
+        except Exception:  # noqa: BLE001
+            LOGGER.debug("Failed to roll back", exc_info=True)
+
     async def shutdown(self) -> None:
         """Shutdown connection."""
         self.running = False
-- 
2.43.0


From 1508859065402d72fdead0724406bc54598cebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 14/57] fix: the database is not closed when its checkpoint
 fails

---
 zigpy/appdb.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 1f68566..9069150 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -202,15 +202,16 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if not self._worker_task.done():
             self._worker_task.cancel()
 
-        # Delete the journal on shutdown
-        await self._set_isolation_level(None)
-        await self.execute("PRAGMA wal_checkpoint;")
-        await self._set_isolation_level("DEFERRED")
-
-        await self._db.close()
-
-        # FIXME: aiosqlite's thread won't always be closed immediately
-        await asyncio.get_running_loop().run_in_executor(None, self._db.join)
+        try:
+            # Delete the journal on shutdown
+            await self._set_isolation_level(None)
+            await self.execute("PRAGMA wal_checkpoint;")
+            await self._set_isolation_level("DEFERRED")
+        finally:
+            await self._db.close()
+
+            # FIXME: aiosqlite's thread won't always be closed immediately
+            await asyncio.get_running_loop().run_in_executor(None, self._db.join)
 
     def enqueue(self, cb_name: str, *args) -> None:
         """Enqueue an async callback handler action."""
-- 
2.43.0


From 1ec68d968c6d925826a78db1628b29805cf08592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 15/57] fix: a single attribute value that cannot be stored
 prevents saving a device

---
 zigpy/appdb.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 9069150..31a1b8c 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -68,6 +68,14 @@ def _import_compatible_sqlite3(min_version: tuple[int, int, int]) -> types.Modul
 
 sqlite3 = _import_compatible_sqlite3(min_version=MIN_SQLITE_VERSION)
 
+# Attribute values can be of types that are not supported by SQLite
+UNSTORABLE_VALUE_ERRORS = (
+    sqlite3.IntegrityError,
+    sqlite3.InterfaceError,
+    sqlite3.ProgrammingError,
+    OverflowError,
+)
+
 
 def _register_sqlite_adapters():
     def adapt_ieee(eui64):
@@ -581,7 +589,16 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         q = f"""INSERT INTO attributes_cache{DB_V} VALUES (?, ?, ?, ?, ?, ?, ?)
                     ON CONFLICT (ieee, endpoint_id, cluster_type, cluster_id, attr_id)
                     DO UPDATE SET value=excluded.value, last_updated=excluded.last_updated"""
-        await self._db.executemany(q, clusters)
+
+        try:
+            await self._db.executemany(q, clusters)
+        except UNSTORABLE_VALUE_ERRORS:
+            # Only skip the attributes that cannot be stored, not the whole device
+            for row in clusters:
+                try:
+                    await self.execute(q, row)
+                except UNSTORABLE_VALUE_ERRORS as exc:
+                    LOGGER.debug("Failed to save attribute %s: %r", row, exc)
 
     async def _save_unsupported_attributes(self, ep: zigpy.typing.EndpointType) -> None:
         clusters = [
-- 
2.43.0


From 5e710d3d1ea586fbede840dd5a844c80bf067c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 16/57] fix: requests are completed by unknown or malformed
 commands with the same sequence

---
 zigpy/device.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 83e899e..682fa8e 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -367,7 +367,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 return False
 
             if hdr.frame_control.is_general:
-                return hdr.command_id != foundation.GeneralCommand.Report_Attributes
+                command = foundation.GENERAL_COMMANDS.get(hdr.command_id)
+                return (
+                    command is not None
+                    and command.direction == foundation.Direction.Server_to_Client
+                )
 
             # Only cluster commands are responded to with other cluster commands
             req_hdr, _ = foundation.ZCLHeader.deserialize(data)
-- 
2.43.0


From e0564d2c23b88fafae933d12b72dea45dd1e56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 17/57] fix: failure status of reads answered by a default
 response is the command

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..cb0b3cd 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -576,7 +576,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
         if not isinstance(result[0], list):
             for attrid in to_read:
                 orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = result[0]  # Assume default response
+                failure[orig_attribute] = result[-1]  # Assume default response
         else:
             for record in result[0]:
                 orig_attribute = orig_attributes[record.attrid]
-- 
2.43.0


From ca6ef32951e062340c9ae9fb6c17cc521b345e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 18/57] fix: debouncer filters objects past their expiration

---
 zigpy/datastructures.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f0447e1..bb89afd 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -231,7 +231,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -243,9 +242,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The root of the heap always expires first
+        while self._queue and self._queue[0][0] < now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -263,12 +262,8 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
-        # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
+        # Expiration times can be identical, we need to make sure that `obj` will never be
+        # compared by `heapq`!
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
@@ -277,7 +272,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From 7f4513771721c003aa1dea50260fdd9c94620e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 19/57] fix: packets with an unparsable header or from the ZDO
 to another endpoint are not contained

---
 zigpy/device.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 682fa8e..8e7f390 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -478,6 +478,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         endpoint = self.endpoints[packet.src_ep]
 
+        # The ZDO endpoint only talks to other ZDO endpoints
+        if packet.src_ep == zdo.ZDO_ENDPOINT and packet.dst_ep != zdo.ZDO_ENDPOINT:
+            self.debug("Ignoring message from ZDO to endpoint %s", packet.dst_ep)
+            return
+
         # Ignore packets that do not match the endpoint's clusters.
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
         if (
@@ -492,13 +497,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError:
+            self.debug("Failed to parse the header of packet %r", packet)
+            return
 
         try:
             if (
-- 
2.43.0


From 375206288227616c046a8d29465282ec970a725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 20/57] fix: packets from an address of an unknown kind are not
 contained

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 841f81d..b300169 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -1037,7 +1037,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
         try:
             device = self.get_device_with_address(packet.src)
-        except KeyError:
+        except (KeyError, ValueError):
             LOGGER.warning("Unknown device %r", packet.src)
 
             if packet.src.addr_mode == t.AddrMode.NWK:
-- 
2.43.0


From 4a46ad290b665f689d9187ad1cb7fa8ea83eca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 21/57] fix: packets with a source route cannot be hashed

---
 zigpy/types/named.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/named.py b/zigpy/types/named.py
index ddd170f..6185fc0 100644
--- a/zigpy/types/named.py
+++ b/zigpy/types/named.py
@@ -630,7 +630,7 @@ class ZigbeePacket(BaseDataclassMixin):
                 self.src_ep,
                 self.dst,
                 self.dst_ep,
-                self.source_route,
+                None if self.source_route is None else tuple(self.source_route),
                 self.extended_timeout,
                 self.tsn,
                 self.profile_id,
-- 
2.43.0


From 2992fd0dfb1494bf186a2db14781eb0e99e43c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 22/57] fix: reported values that cannot be converted to the
 type of their attribute are not contained

---
 zigpy/zcl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index cb0b3cd..6ac047b 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -484,7 +484,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value = self.attributes[attr.attrid].type(attr.value.value)
                 except KeyError:
                     value = attr.value.value
-                except ValueError:
+                except (TypeError, ValueError):
                     self.debug(
                         "Couldn't normalize %a attribute with %s value",
                         attr.attrid,
@@ -585,7 +585,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                         value = self.attributes[record.attrid].type(record.value.value)
                     except KeyError:
                         value = record.value.value
-                    except ValueError:
+                    except (TypeError, ValueError):
                         value = record.value.value
                         self.debug(
                             "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From a82809b70f6b202dd62c88273b67fa1ac77568e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 23/57] fix: a read response with an attribute that was not
 asked for fails the read

---
 zigpy/zcl/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 6ac047b..02acd31 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -579,6 +579,10 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 failure[orig_attribute] = result[-1]  # Assume default response
         else:
             for record in result[0]:
+                # Devices can respond with attributes that were not asked for
+                if record.attrid not in orig_attributes:
+                    continue
+
                 orig_attribute = orig_attributes[record.attrid]
                 if record.status == foundation.Status.SUCCESS:
                     try:
-- 
2.43.0


From 5c6dfc7785a9abcf1aac5c83ada85b9b49367a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:49 +0000
Subject: [PATCH 24/57] fix: keep dispatching messages when matchers raise or
 listeners change

---
 zigpy/device.py    | 9 ++++++---
 zigpy/listeners.py | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 8e7f390..632e6d1 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -560,9 +560,12 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             return
 
         # Pass the request off to a listener, if one is registered
-        for listener in itertools.chain(
-            self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
-            self._application._req_listeners[self],
+        # Listeners can be added and removed by the callbacks being called
+        for listener in tuple(
+            itertools.chain(
+                self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
+                self._application._req_listeners[self],
+            )
         ):
             # Resolve only until the first future listener
             if listener.resolve(hdr, args) and isinstance(
diff --git a/zigpy/listeners.py b/zigpy/listeners.py
index 503e7ca..2e6ad77 100644
--- a/zigpy/listeners.py
+++ b/zigpy/listeners.py
@@ -39,7 +39,12 @@ class BaseRequestListener:
                 # FIXME: ZDO does not use command schemas and cannot be matched
                 pass
             elif callable(matcher):
-                match = matcher(hdr, command)
+                try:
+                    match = matcher(hdr, command)
+                except Exception:  # noqa: BLE001
+                    LOGGER.warning(
+                        "Caught an exception while executing matcher", exc_info=True
+                    )
             else:
                 LOGGER.warning(
                     "Matcher %r and command %r %r are incompatible",
-- 
2.43.0


From 8d8e47f4a54c417a65b29bb6a5bb950118794492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 25/57] fix: a cancelled firmware update still reported
 progress and could time out

---
 zigpy/ota/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/ota/manager.py b/zigpy/ota/manager.py
index 5f86cde..9afa132 100644
--- a/zigpy/ota/manager.py
+++ b/zigpy/ota/manager.py
@@ -91,6 +91,10 @@ class OTAManager:
     def __exit__(self, *exc_details) -> None:
         self.stack.close()
 
+        # Nothing in flight should affect an update that was cancelled
+        self._stall_timer.cancel()
+        self._upgrade_end_future.cancel()
+
     def _stall_callback(self) -> None:
         """Handle the stall timer expiring."""
         self._finish(foundation.Status.TIMEOUT)
-- 
2.43.0


From d369dc6e220301d08a43e6b6dba42bbe8505c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 26/57] fix: cancelling one caller of a combined call cancelled
 or failed the others

---
 zigpy/util.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 4566e32..d77cd12 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import abc
 import asyncio
+import collections
 import functools
 import inspect
 import itertools
@@ -494,6 +495,7 @@ def combine_concurrent_calls(
     """Decorator that allows concurrent calls to expensive coroutines to share a result."""
 
     tasks: dict[tuple, asyncio.Task] = {}
+    callers: collections.Counter[asyncio.Task] = collections.Counter()
     signature = inspect.signature(function)
 
     @functools.wraps(function)
@@ -503,17 +505,25 @@ def combine_concurrent_calls(
 
         # XXX: all args and kwargs are assumed to be hashable
         key = tuple(bound.arguments.items())
+        task = tasks.get(key)
 
-        if key in tasks:
-            return await tasks[key]
+        if task is None or task.done():
+            task = tasks[key] = asyncio.create_task(function(*args, **kwargs))
 
-        tasks[key] = asyncio.create_task(function(*args, **kwargs))
+        callers[task] += 1
 
         try:
-            return await tasks[key]
+            # Cancelling one caller must not affect the others
+            return await asyncio.shield(task)
         finally:
-            assert tasks[key].done()
-            del tasks[key]
+            callers[task] -= 1
+
+            if not callers[task]:
+                del callers[task]
+                task.cancel()
+
+                if tasks.get(key) is task:
+                    del tasks[key]
 
     return replacement
 
-- 
2.43.0


From 8d178cd90bb4cace1d90de65f884fe5a702374af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 27/57] fix: an image whose contents restrict its compatibility
 was offered to incompatible devices

---
 zigpy/ota/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..e0a1d7f 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -469,6 +469,12 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
+            # The contents of the image can restrict its compatibility further
+            if not img.check_compatibility(device, query_cmd):
+                _LOGGER.debug("Downloaded image is not compatible, ignoring: %s", img)
+                upgrades.pop(img.metadata)
+                continue
+
             upgrades[img.metadata] = img
 
         # As a final pass, identify images with identical versions and specificity but
-- 
2.43.0


From 16e121fe01e061cbcfda944fd8c91ed32902e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 28/57] fix: an image downloaded for a lookup still waiting for
 others, or cancelled, was downloaded again

---
 zigpy/ota/__init__.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index e0a1d7f..6797980 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -379,11 +379,18 @@ class OTA:
     @zigpy.util.combine_concurrent_calls
     async def _fetch_image(
         self, image: OtaImageWithMetadata
-    ) -> list[OtaImageWithMetadata]:
-        """Load the index of a provider."""
+    ) -> OtaImageWithMetadata:
+        """Download an image and cache it."""
 
         async with asyncio_timeout(OTA_FETCH_TIMEOUT):
-            return await image.fetch()
+            img = await image.fetch()
+
+        # Cache the image immediately: the lookup that requested it may still be waiting
+        # for other images or may be cancelled
+        _LOGGER.debug("Caching image %s", img)
+        self._image_cache[img.metadata] = img
+
+        return img
 
     async def get_ota_images(
         self,
@@ -464,11 +471,6 @@ class OTA:
             # image with downloaded firmware.
             img = result
 
-            # Cache the image if it isn't already cached
-            if self._image_cache[img.metadata].firmware is None:
-                _LOGGER.debug("Caching image %s", img)
-                self._image_cache[img.metadata] = img
-
             # The contents of the image can restrict its compatibility further
             if not img.check_compatibility(device, query_cmd):
                 _LOGGER.debug("Downloaded image is not compatible, ignoring: %s", img)
-- 
2.43.0


From ef3a9167a8a22aa4cc92d8749e7d1eb831b14b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 29/57] fix: the network manager of an open coordinator backup
 is byte swapped

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..7184dd4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -358,7 +358,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From 6c331ff8d2cb4fb5f90c42c7ccb82321ea47f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 30/57] fix: backups change along with the live network

---
 zigpy/backups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index 7184dd4..4fe2003 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -134,9 +134,10 @@ class BackupManager(ListenableMixin):
 
     def from_network_state(self) -> NetworkBackup:
         """Create a backup object from the current network's state."""
+        # The state keeps changing after the backup was created
         return NetworkBackup(
-            network_info=self.app.state.network_info,
-            node_info=self.app.state.node_info,
+            network_info=copy.deepcopy(self.app.state.network_info),
+            node_info=copy.deepcopy(self.app.state.node_info),
         )
 
     async def create_backup(self, *, load_devices: bool = False) -> NetworkBackup:
-- 
2.43.0


From aed0bf09e8a16560be0997662f7ba64c7db69a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 31/57] fix: replacing a backup deletes others created at the
 same time from the database

---
 zigpy/appdb.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 31a1b8c..757ed8d 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -695,13 +695,31 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         await self._db.commit()
 
     def network_backup_removed(self, backup: zigpy.backups.NetworkBackup) -> None:
-        self.enqueue("_network_backup_removed", backup.backup_time)
-
-    async def _network_backup_removed(self, backup_time: datetime) -> None:
-        q = f"""DELETE FROM network_backups{DB_V}
-                    WHERE json_extract(backup_json, '$.backup_time')=?"""
+        self.enqueue("_network_backup_removed", json.dumps(backup.as_dict()))
+
+    async def _network_backup_removed(self, backup_json: str) -> None:
+        # Imported backups of different networks can share a creation time
+        paths = (
+            "$.backup_time",
+            "$.node_info.nwk",
+            "$.node_info.logical_type",
+            "$.node_info.ieee",
+            "$.network_info.extended_pan_id",
+            "$.network_info.pan_id",
+            "$.network_info.nwk_update_id",
+            "$.network_info.nwk_manager_id",
+            "$.network_info.channel",
+            "$.network_info.security_level",
+            "$.network_info.tc_link_key.key",
+            "$.network_info.network_key.key",
+            "$.network_info.network_key.tx_counter",
+        )
+        q = f"DELETE FROM network_backups{DB_V} WHERE " + " AND ".join(
+            f"json_extract(backup_json, '{path}') IS json_extract(?1, '{path}')"
+            for path in paths
+        )
 
-        await self.execute(q, (backup_time.isoformat(),))
+        await self.execute(q, (backup_json,))
         await self._db.commit()
 
     async def load(self) -> None:
-- 
2.43.0


From 8d7c5e5ae7107ea439733e245e9f3523444d0b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 32/57] fix: removing a non-member from a group is announced as
 a removal

---
 zigpy/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..8b94b08 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -52,9 +52,9 @@ class Group(ListenableMixin, dict):
         return self
 
     def remove_member(self, ep: Endpoint, suppress_event: bool = False) -> Group:
-        self.pop(ep.unique_id, None)
+        member = self.pop(ep.unique_id, None)
         ep.member_of.pop(self.group_id, None)
-        if not suppress_event:
+        if member is not None and not suppress_event:
             self.listener_event("member_removed", self, ep)
         return self
 
-- 
2.43.0


From 2724c30bbf5758086fadd35d1fd6e34f2764faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 33/57] fix: popping an unknown group announces the removal of
 nothing

---
 zigpy/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index 8b94b08..546b789 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -151,7 +151,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From dda331c2594c066052d003ddf53ff026931a3165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 34/57] fix: a group add refused with a default response counts
 as a success

---
 zigpy/endpoint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index f439f6d..57a438d 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -156,6 +156,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            self.debug("Couldn't add to 0x%04x group: %s", grp_id, res.status)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
             self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
             return res[0]
@@ -171,6 +175,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot remove 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            self.debug("Couldn't remove from 0x%04x group: %s", grp_id, res.status)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
             self.debug("Couldn't remove to 0x%04x group: %s", grp_id, res[0])
             return res[0]
-- 
2.43.0


From 97280470b5ae109cbbcc2ceca5fcf145effb287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 35/57] fix: acknowledged undivided writes do not update the
 attribute cache

---
 zigpy/zcl/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 02acd31..25501de 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -676,12 +676,20 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
 
         return result
 
-    def write_attributes_undivided(
+    async def write_attributes_undivided(
         self, attributes: dict[str | int, Any], manufacturer: int | None = None
     ) -> list:
         """Either all or none of the attributes are written by the device."""
         args = self._write_attr_records(attributes)
-        return self._write_attributes_undivided(args, manufacturer=manufacturer)
+        result = await self._write_attributes_undivided(args, manufacturer=manufacturer)
+
+        if isinstance(result[0], list) and all(
+            record.status == foundation.Status.SUCCESS for record in result[0]
+        ):
+            for attr_rec in args:
+                self._update_attribute(attr_rec.attrid, attr_rec.value.value)
+
+        return result
 
     def bind(self):
         return self._endpoint.device.zdo.bind(cluster=self)
-- 
2.43.0


From a1de96079a84b58fcc2a9c81d015d61cd3f81cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 36/57] fix: periodic topology scans stopped during a scan go
 on

---
 zigpy/topology.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..719fbfa 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -44,6 +44,7 @@ class Topology(zigpy.util.ListenableMixin):
         self._listeners: dict = {}
         self._scan_task: asyncio.Task | None = None
         self._scan_loop_task: asyncio.Task | None = None
+        self._scan_loop_stopped: asyncio.Event | None = None
 
         # Keep track of devices that do not support scanning
         self._neighbors_unsupported: set[t.EUI64] = set()
@@ -56,13 +57,17 @@ class Topology(zigpy.util.ListenableMixin):
 
     def start_periodic_scans(self, period: float) -> None:
         self.stop_periodic_scans()
-        self._scan_loop_task = asyncio.create_task(self._scan_loop(period))
+        self._scan_loop_stopped = asyncio.Event()
+        self._scan_loop_task = asyncio.create_task(
+            self._scan_loop(period, self._scan_loop_stopped)
+        )
 
     def stop_periodic_scans(self) -> None:
         if self._scan_loop_task is not None:
             self._scan_loop_task.cancel()
+            self._scan_loop_stopped.set()
 
-    async def _scan_loop(self, period: float) -> None:
+    async def _scan_loop(self, period: float, stopped: asyncio.Event) -> None:
         """Delay scan by creating a task."""
 
         while True:
@@ -78,7 +83,11 @@ class Topology(zigpy.util.ListenableMixin):
                 await self.scan()
             except asyncio.CancelledError:
                 # We explicitly catch a cancellation here to ensure the scan loop will
-                # not be interrupted if a manual scan is initiated
+                # not be interrupted if a manual scan is initiated, unless the loop itself
+                # is the one being stopped
+                if stopped.is_set():
+                    raise
+
                 LOGGER.debug("Topology scan cancelled")
             except (Exception, asyncio.CancelledError):
                 LOGGER.debug("Topology scan failed", exc_info=True)
-- 
2.43.0


From f0676c9c3f0aa309a4973e8d27309c053140f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 37/57] fix: topology scans fail for iterables without a length

---
 zigpy/topology.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 719fbfa..ded788a 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -168,8 +168,10 @@ class Topology(zigpy.util.ListenableMixin):
         """Scan topology."""
 
         if devices is None:
-            # We iterate over a copy of the devices as opposed to the live dictionary
-            devices = list(self._app.devices.values())
+            devices = self._app.devices.values()
+
+        # We iterate over a copy of the devices as opposed to the live dictionary
+        devices = list(devices)
 
         for index, device in enumerate(devices):
             LOGGER.debug(
-- 
2.43.0


From 5384145da43c7189d1e8b5af0d6df25c22b8ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 38/57] fix: a failed lookup fails the topology scan and skips
 the others

---
 zigpy/topology.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index ded788a..4bdcbd1 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -261,5 +261,10 @@ class Topology(zigpy.util.ListenableMixin):
         # Try to discover any unknown devices
         for nwk in unknown_nwks:
             LOGGER.debug("Found unknown device nwk=%s", nwk)
-            await self._app._discover_unknown_device(nwk)
+
+            try:
+                await self._app._discover_unknown_device(nwk)
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug("Failed to discover device nwk=%s", nwk, exc_info=e)
+
             await asyncio.sleep(random.uniform(*REQUEST_DELAY))
-- 
2.43.0


From bff6e4e046338971e3be907f3b23c9be6cca4018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 39/57] fix: topology scans bring back the tables of removed
 devices

---
 zigpy/topology.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 4bdcbd1..81585b0 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -178,6 +178,10 @@ class Topology(zigpy.util.ListenableMixin):
                 "Scanning topology (%d/%d) of %s", index + 1, len(devices), device
             )
 
+            # Ignore devices that were removed since the scan was started
+            if self._app.devices.get(device.ieee) is not device:
+                continue
+
             # Ignore devices that aren't routers
             if device.node_desc is None or not (
                 device.node_desc.is_router or device.node_desc.is_coordinator
@@ -198,30 +202,41 @@ class Topology(zigpy.util.ListenableMixin):
             ):
                 continue
 
+            neighbors = None
+            routes = None
+
             try:
-                self.neighbors[device.ieee] = await self._scan_neighbors(device)
+                neighbors = await self._scan_neighbors(device)
             except Exception as e:  # noqa: BLE001
                 LOGGER.debug("Failed to scan neighbors of %s", device, exc_info=e)
-            else:
-                LOGGER.info(
-                    "Scanned neighbors of %s: %s", device, self.neighbors[device.ieee]
-                )
+
+            # Ignore devices removed in the meantime
+            if self._app.devices.get(device.ieee) is not device:
+                continue
+
+            if neighbors is not None:
+                self.neighbors[device.ieee] = neighbors
+                LOGGER.info("Scanned neighbors of %s: %s", device, neighbors)
 
             self.listener_event(
                 "neighbors_updated", device.ieee, self.neighbors[device.ieee]
             )
 
             try:
-                # Filter out inactive routes
                 routes = await self._scan_routes(device)
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug("Failed to scan routes of %s", device, exc_info=e)
+
+            if self._app.devices.get(device.ieee) is not device:
+                continue
+
+            if routes is not None:
+                # Filter out inactive routes
                 self.routes[device.ieee] = [
                     route
                     for route in routes
                     if route.RouteStatus != zdo_t.RouteStatus.Inactive
                 ]
-            except Exception as e:  # noqa: BLE001
-                LOGGER.debug("Failed to scan routes of %s", device, exc_info=e)
-            else:
                 LOGGER.info(
                     "Scanned routes of %s: %s", device, self.routes[device.ieee]
                 )
-- 
2.43.0


From 380ffb75e62d73a3a792a187b8ebd9e0ccf441e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 40/57] fix: answers to manufacturer specific requests lack the
 manufacturer code

---
 zigpy/zcl/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 25501de..1db0d88 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -527,7 +527,11 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value=attr_read_func(),
                 )
 
-            self.create_catching_task(self.read_attributes_rsp(records, tsn=hdr.tsn))
+            self.create_catching_task(
+                self.read_attributes_rsp(
+                    records, manufacturer=hdr.manufacturer, tsn=hdr.tsn
+                )
+            )
 
     def read_attributes_raw(self, attributes, manufacturer=None, **kwargs):
         attributes = [t.uint16_t(a) for a in attributes]
@@ -990,6 +994,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 foundation.GeneralCommand.Default_Response,
                 hdr.command_id,
                 status,
+                manufacturer=hdr.manufacturer,
                 tsn=hdr.tsn,
                 priority=t.PacketPriority.LOW,
             )
-- 
2.43.0


From b7dc0ca2b13b0b5940f6b2eb8ae9e3f5e53bd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 41/57] fix: a cancelled startup leaves the radio connected

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index b300169..370c962 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -235,7 +235,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         try:
             await self.connect()
             await self.initialize(auto_form=auto_form)
-        except Exception as e:  # noqa: BLE001
+        except (Exception, asyncio.CancelledError) as e:
             await self.shutdown(db=False)
 
             if isinstance(e, ConnectionError) or (
-- 
2.43.0


From c97545a19ab4b3cd9469304adde52230c948e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 42/57] fix: a database that cannot be loaded is left open

---
 zigpy/application.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 370c962..c78e6de 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -108,7 +108,13 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             return
 
         self._dblistener = await zigpy.appdb.PersistingListener.new(database_file, self)
-        await self._dblistener.load()
+
+        try:
+            await self._dblistener.load()
+        except Exception:  # noqa: BLE001
+            await self._dblistener.shutdown()
+            raise
+
         self._add_db_listeners()
 
     def _add_db_listeners(self):
-- 
2.43.0


From 2191034ac74f960534ccbd86b84a690e87cde8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 43/57] fix: the database stays open when creating an
 application fails

---
 zigpy/application.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index c78e6de..bf96154 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -261,7 +261,12 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         await app._load_db()
 
         if start_radio:
-            await app.startup(auto_form=auto_form)
+            try:
+                await app.startup(auto_form=auto_form)
+            except (Exception, asyncio.CancelledError):
+                # Nobody else can close the database
+                await app._shutdown_db()
+                raise
 
         return app
 
@@ -448,13 +453,20 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except Exception:  # noqa: BLE001
             LOGGER.warning("Failed to disconnect from radio", exc_info=True)
 
-        if db and self._dblistener:
-            self._remove_db_listeners()
+        if db:
+            await self._shutdown_db()
 
-            try:
-                await self._dblistener.shutdown()
-            except Exception:  # noqa: BLE001
-                LOGGER.warning("Failed to disconnect from database", exc_info=True)
+    async def _shutdown_db(self) -> None:
+        """Disconnect from the database."""
+        if not self._dblistener:
+            return
+
+        self._remove_db_listeners()
+
+        try:
+            await self._dblistener.shutdown()
+        except Exception:  # noqa: BLE001
+            LOGGER.warning("Failed to disconnect from database", exc_info=True)
 
     def add_device(self, ieee: t.EUI64, nwk: t.NWK) -> zigpy.device.Device:
         """Creates a zigpy `Device` object with the provided IEEE and NWK addresses."""
-- 
2.43.0


From d6351796567a4c75cef9074d997bb2852a6f02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 44/57] fix: a failed energy scan returns one value per channel

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index bf96154..1bd45b2 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -285,7 +285,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
             LOGGER.warning("Coordinator does not support energy scanning")
             scanned_channels = channels
-            energy_values = [0] * scanned_channels
+            energy_values = [0] * len(list(scanned_channels))
         else:
             _, scanned_channels, _, _, energy_values = rsp
 
-- 
2.43.0


From d543650aa4d906d45bb633589b8d8c84d540148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 45/57] fix: forming a network never picks the broadcast PAN ID

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 1bd45b2..bd34d7e 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -366,7 +366,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From f50a4b8ddf81e80f510745507fae645509a11042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 46/57] fix: drop group memberships of a device that joins
 while it is removed

A group command that is answered after the removal began adds the old
endpoint back to its group. When the device then joins again, it is
replaced, and the group kept the endpoint of the old device.
---
 zigpy/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index bd34d7e..33e6e49 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -598,7 +598,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
             # A removed device that joins again is a new device
             self._devices_being_removed.discard(ieee)
-            self.devices.pop(ieee, None)
+            removed = self.devices.pop(ieee, None)
+
+            if removed is not None:
+                self._forget_device(removed)
 
         try:
             dev = self.get_device(ieee=ieee)
-- 
2.43.0


From ef33e81011d8b1e422f21c65bbe2e96cab77fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 47/57] fix: follow the address of a device that is being
 removed

A device that was found by an address response while it is being removed
was ignored altogether. Each of its packets then caused another address
request, until the removal ended.
---
 zigpy/application.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 33e6e49..66edb27 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -594,6 +594,11 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         if ieee in self._devices_being_removed:
             if not handle_rejoin:
                 LOGGER.debug("Ignoring device %s, it is being removed", ieee)
+
+                # It still has to be recognized by its current address
+                if ieee in self.devices:
+                    self.devices[ieee].nwk = nwk
+
                 return
 
             # A removed device that joins again is a new device
-- 
2.43.0


From 268e802b4335d94e443a809973ab5ff8f5ac4b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 48/57] fix: do not add a removed device to a group

A group command or a group scan that finished after the device had been
removed made its old endpoint a member of the group again.
---
 zigpy/application.py | 2 ++
 zigpy/device.py      | 9 ++++++---
 zigpy/endpoint.py    | 9 +++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 66edb27..b22c2f6 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -539,6 +539,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
     def _forget_device(self, device: zigpy.device.Device) -> None:
         """Remove a device from all groups and from the topology."""
+        device.cancel_group_membership_scan()
+
         for group in self.groups.values():
             for ep in list(group.members.values()):
                 if ep.device.ieee == device.ieee:
diff --git a/zigpy/device.py b/zigpy/device.py
index 632e6d1..cfc6cba 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -177,13 +177,16 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     def schedule_group_membership_scan(self) -> asyncio.Task:
         """Rescan device group's membership."""
+        self.cancel_group_membership_scan()
+        self._group_scan_task = asyncio.create_task(self.group_membership_scan())
+        return self._group_scan_task
+
+    def cancel_group_membership_scan(self) -> None:
+        """Cancel a running rescan of the device group's membership."""
         if self._group_scan_task and not self._group_scan_task.done():
             self.debug("Cancelling old group rescan")
             self._group_scan_task.cancel()
 
-        self._group_scan_task = asyncio.create_task(self.group_membership_scan())
-        return self._group_scan_task
-
     async def group_membership_scan(self) -> None:
         """Sync up group membership."""
         for ep in self.non_zdo_endpoints:
diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 57a438d..1716077 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -164,8 +164,13 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
             return res[0]
 
-        group = self.device.application.groups.add_group(grp_id, name)
-        group.add_member(self)
+        app = self.device.application
+        group = app.groups.add_group(grp_id, name)
+
+        # The device may have been removed in the meantime
+        if app.devices.get(self.device.ieee) is self.device:
+            group.add_member(self)
+
         return res[0]
 
     async def remove_from_group(self, grp_id: int) -> ZCLStatus:
-- 
2.43.0


From 9a64d47f5d547b016538253fc07dd13a47dd4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 49/57] fix: a time request while the clock precedes the Zigbee
 epoch is not contained

---
 zigpy/zcl/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 1db0d88..d65a89f 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -521,10 +521,18 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     record.status = foundation.Status.UNSUPPORTED_ATTRIBUTE
                     continue
 
+                try:
+                    value = attr_read_func()
+                except ValueError:
+                    # E.g. the system time precedes the Zigbee epoch
+                    self.debug("Failed to read %s", attr_def.name, exc_info=True)
+                    record.status = foundation.Status.FAILURE
+                    continue
+
                 record.status = foundation.Status.SUCCESS
                 record.value = foundation.TypeValue(
                     type=attr_def.zcl_type,
-                    value=attr_read_func(),
+                    value=value,
                 )
 
             self.create_catching_task(
-- 
2.43.0


From d9991aac5254660f0cc68d86cbbfb3408f2390f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 50/57] fix: times are not stored after the clock is set back

---
 zigpy/appdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 757ed8d..f719c8f 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -267,7 +267,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
     async def _save_device_last_seen(self, ieee: t.EUI64, last_seen: datetime) -> None:
         q = f"""UPDATE devices{DB_V}
                     SET last_seen=:ts
-                    WHERE ieee=:ieee AND :ts - last_seen > :min_update_delta"""
+                    WHERE ieee=:ieee AND ABS(:ts - last_seen) > :min_update_delta"""
         await self.execute(
             q,
             {
@@ -635,7 +635,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 SET value=excluded.value, last_updated=excluded.last_updated
                 WHERE
                     value != excluded.value
-                    OR :timestamp - last_updated > :min_update_delta
+                    OR ABS(:timestamp - last_updated) > :min_update_delta
             """
         await self.execute(
             q,
-- 
2.43.0


From c3c1986a05997edfe43eb55ebaa2035e5c7a815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 51/57] fix: output clusters added by a v2 quirk are not
 servers

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 6af8a97948107912c1a165832f8e8d9f27c8701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 52/57] fix: constant attributes of a v2 quirk are looked up by
 their ID

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index bcdcccd..1f4fb79 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -168,9 +168,11 @@ class AddsMetadata:
         cluster = add_cluster(cluster_id, cluster)
 
         if self.constant_attributes:
+            # Constant attributes are looked up by their ID
             cluster._CONSTANT_ATTRIBUTES = {
-                attribute.name: value
+                key: value
                 for attribute, value in self.constant_attributes.items()
+                for key in (attribute.id, attribute.name)
             }
 
 
-- 
2.43.0


From d0c3bffbfb64314ac540bb72a9fbdecea74a5f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 53/57] fix: a quirk device reuses sequence numbers still
 awaiting responses

---
 zigpy/quirks/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..3b88ea1 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -89,6 +89,9 @@ class BaseCustomDevice(zigpy.device.Device):
         for attr in ("lqi", "rssi", "last_seen", "relays"):
             setattr(self, attr, getattr(replaces, attr))
 
+        # Responses to the replaced device's requests can still arrive
+        self._send_sequence = replaces._send_sequence
+
         set_device_attr("status")
         set_device_attr(SIG_NODE_DESC)
         set_device_attr(SIG_MANUFACTURER)
-- 
2.43.0


From 09cf6e548ddbfd89bfb51adbb411e362827e595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 54/57] fix: values kept by a quirk lose their time of update

---
 zigpy/quirks/__init__.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 3b88ea1..0dc7991 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -185,11 +185,9 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                     endpoint_id in replace_device.endpoints
                     and cluster_id in replace_device.endpoints[endpoint_id].in_clusters
                 ):
-                    cluster._attr_cache = (
-                        replace_device[endpoint_id]
-                        .in_clusters[cluster_id]
-                        ._attr_cache.copy()
-                    )
+                    replaced = replace_device[endpoint_id].in_clusters[cluster_id]
+                    cluster._attr_cache = replaced._attr_cache.copy()
+                    cluster._attr_last_updated = replaced._attr_last_updated.copy()
 
         for c in replacement_data.get(SIG_EP_OUTPUT, []):
             if isinstance(c, int):
@@ -204,11 +202,9 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                     endpoint_id in replace_device.endpoints
                     and cluster_id in replace_device.endpoints[endpoint_id].out_clusters
                 ):
-                    cluster._attr_cache = (
-                        replace_device[endpoint_id]
-                        .out_clusters[cluster_id]
-                        ._attr_cache.copy()
-                    )
+                    replaced = replace_device[endpoint_id].out_clusters[cluster_id]
+                    cluster._attr_cache = replaced._attr_cache.copy()
+                    cluster._attr_last_updated = replaced._attr_last_updated.copy()
 
 
 class CustomCluster(zigpy.zcl.Cluster):
-- 
2.43.0


From 9b677dba2a09ede82d270fd578779c4227456e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 55/57] fix: a refused read is taken for a successful one by
 quirk clusters

---
 zigpy/quirks/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 0dc7991..c5356a6 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -322,7 +322,7 @@ class CustomCluster(zigpy.zcl.Cluster):
                 succeeded.append(  # noqa: PERF401
                     foundation.ReadAttributeRecord(
                         attrid,
-                        results[0],
+                        results[-1],  # Assume default response
                         foundation.TypeValue(),
                     )
                 )
-- 
2.43.0


From 2f00d10745267d76a95a574140581f0b5cdcd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 56/57] fix: every announcement of a known device multiplies
 its writes to the database

---
 zigpy/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index b22c2f6..50abba0 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -486,6 +486,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         device = zigpy.quirks.get_device(device)
         self.devices[device.ieee] = device
         if self._dblistener is not None:
+            # The device may already be known
+            device.remove_listener(self._dblistener)
             device.add_context_listener(self._dblistener)
         self.listener_event("device_initialized", device)
 
-- 
2.43.0


From f75fb38357da0955a4a8a894233355b84f7f0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 57/57] fix: manufacturer specific group commands are confirmed
 under another command ID

---
 zigpy/group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index 546b789..fe592f0 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -77,11 +77,14 @@ class Group(ListenableMixin, dict):
             )
         )
 
+        # The command ID does not have a fixed position
+        hdr, _ = foundation.ZCLHeader.deserialize(data)
+
         return foundation.GENERAL_COMMANDS[
             foundation.GeneralCommand.Default_Response
         ].schema(
             status=foundation.Status.SUCCESS,
-            command_id=data[2],
+            command_id=hdr.command_id,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0

