From 98f81ec7b334badc93afab16fa8072b5c96d8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 01/39] fix: a send whose acknowledgement and timeout coincide
 must not raise KeyError

waitForAck deleted the pending acknowledgement on timeout even if it had
already been removed by ackReceived, and left it behind when the waiting
task was cancelled, so a later frame with the same sequence number failed
with 'Duplicate ackid used!'.
---
 pyzwave/adapter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..48bff72 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -233,5 +233,10 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            # Do not leave anything behind if the wait ended without the ack, for any
+            # reason. The ack may also have been received just as the wait ended and
+            # then the id might already be in use by another message.
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From b5782279183b7777db495829db5ed54ef5a37fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 02/39] fix: handle 'waiting' notices without header extension

The header extension of such a packet was a plain dict without the
expectedDelay property, so the notice was lost in an AttributeError and the
send to the sleeping node failed after three seconds.
---
 pyzwave/commandclass/Zip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..7b1675d 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -185,8 +185,6 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
     Decoder type for header extensions in Command Class message ZIP_PACKET
     """
 
-    default = {}
-
     @property
     def expectedDelay(self) -> int:
         """Returns the expected delay for sleeping nodes"""
@@ -208,6 +206,10 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         return retval
 
 
+# A packet without header extension has an empty one
+HeaderExtension.default = HeaderExtension()
+
+
 @ZWaveMessage(COMMAND_CLASS_ZIP, COMMAND_ZIP_KEEP_ALIVE)
 class ZipKeepAlive(Message):
     """
-- 
2.43.0


From 5e202fecffcfa6efe9e0e0de775be5bd8979fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 03/39] fix: do not reuse the sequence number of a frame that
 is still unacknowledged

The 8 bit sequence number wraps. A send to a sleeping node may be pending
much longer than it takes to send 256 other frames, which then failed with
'Duplicate ackid used!'.
---
 pyzwave/zipconnection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..6e599b8 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -138,7 +138,15 @@ class ZIPConnection(Adapter):
         self._keepAlive = asyncio.get_event_loop().call_later(25, self.keepAlive)
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
-        self._seq = (self._seq + 1) & 0xFF
+        for _ in range(256):
+            self._seq = (self._seq + 1) & 0xFF
+            if self._seq not in self._ackQueue:
+                break
+            # The sequence number is still in use by a message waiting to be acked. This
+            # may take a long time for sleeping nodes.
+        else:
+            _LOGGER.error("Too many messages waiting to be acked")
+            return False
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From e7e674b2458ac6a00ce9a8822a7deba3ec9d9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 04/39] fix: requests waiting for the same kind of message must
 not affect each other

All waiters for a message type shared one future. The timeout or cancellation
of one cancelled it for all others (or made the delivery of the message fail
with InvalidStateError) and a request that ended removed the session of a
request made later. Each waiter now has a session of its own.
---
 pyzwave/util.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..f0d1a65 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -167,37 +167,43 @@ class MessageWaiter:
 
     def __init__(self):
         super().__init__()
-        self._sessions = {}
+        self._sessions = []
 
     def addWaitingSession(self, msgType):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
-        a race condition where the message is received before we wait for it
+        a race condition where the message is received before we wait for it.
+
+        Every session must be ended, either by :meth:`waitForMessage()` or by
+        :meth:`removeWaitingSession()`.
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.append((msgType.hid(), session))
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
+        handled = False
+        for hid, session in self._sessions:
+            if hid != message.hid() or session.done():
+                continue
             session.set_result(message)
-            return True
-        return False
+            handled = True
+        return handled
+
+    def removeWaitingSession(self, session):
+        """End a session. No more messages will be consumed by it."""
+        self._sessions = [item for item in self._sessions if item[1] is not session]
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
-        if not session:
+        if session is None:
             session = self.addWaitingSession(msgType)
         try:
-            await asyncio.wait_for(session, timeout)
-        except asyncio.TimeoutError:
-            _LOGGER.warning("Timeout waiting for message %s", msgType)
-            raise
+            await asyncio.wait([session], timeout=timeout)
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(session)
+        if not session.done():
+            _LOGGER.warning("Timeout waiting for message %s", msgType)
+            raise asyncio.TimeoutError()
         return session.result()
-- 
2.43.0


From ede3f0f8067068b36a07eef221fa48091ca1c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 05/39] fix: do not lose replies that overtake the ack or
 swallow messages after a failed request

Node.sendAndReceive set up a session before sending but did not wait for it
afterwards, so a reply received before the acknowledgement was lost. A request
that failed while sending left its session behind, and that consumed a later
message nobody was waiting for.
---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 15 +++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 48bff72..1bc2e17 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -211,8 +211,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..4e49c3a 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(session)
 
     @contextmanager
     def storageLock(self):
-- 
2.43.0


From ee903695d4327504df38de10b0e4d9a8f26064a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 06/39] fix: concurrent commands to a node must share one
 connection

---
 pyzwave/zipgateway.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..4cbb867 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectLocks = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -94,16 +95,17 @@ class ZIPGateway(ZIPConnection):
 
     async def connectToNode(self, nodeId) -> ZIPConnection:
         """Returns a connection to the node"""
-        if nodeId in self._connections:
-            return self._connections[nodeId]
+        async with self._connectLocks.setdefault(nodeId, asyncio.Lock()):
+            if nodeId in self._connections:
+                return self._connections[nodeId]
 
-        ipv6 = await self.ipOfNode(nodeId)
+            ipv6 = await self.ipOfNode(nodeId)
 
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = self._nmSeq + 1
-- 
2.43.0


From e469f5a7fb3a200c81c52e7305a5be76c3ea56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 07/39] fix: the address of a node must come from an
 advertisement for that node

---
 pyzwave/adapter.py    |  9 ++++++---
 pyzwave/node.py       |  9 ++++++---
 pyzwave/util.py       | 20 ++++++++++++++------
 pyzwave/zipgateway.py |  8 +++++++-
 4 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 1bc2e17..ab1c484 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -207,10 +207,13 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
         raise NotImplementedError()
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response. If match is given only responses for
+        which match(response) returns True are considered.
+        """
+        session = self.addWaitingSession(waitFor, match)
         try:
             await self.send(cmd, **kwargs)
             return await self.waitForMessage(waitFor, session=session, timeout=timeout)
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 4e49c3a..5cdb0a5 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -241,10 +241,13 @@ class Node(Listenable, MessageWaiter):
         )
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response. If match is given only responses for
+        which match(response) returns True are considered.
+        """
+        session = self.addWaitingSession(waitFor, match)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
diff --git a/pyzwave/util.py b/pyzwave/util.py
index f0d1a65..d8ecf34 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -169,36 +169,44 @@ class MessageWaiter:
         super().__init__()
         self._sessions = []
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, match=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it.
 
+        If match is given only messages for which match(message) returns True are
+        considered.
+
         Every session must be ended, either by :meth:`waitForMessage()` or by
         :meth:`removeWaitingSession()`.
         """
         session = asyncio.get_event_loop().create_future()
-        self._sessions.append((msgType.hid(), session))
+        self._sessions.append((msgType.hid(), match, session))
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
         handled = False
-        for hid, session in self._sessions:
+        for hid, match, session in self._sessions:
             if hid != message.hid() or session.done():
                 continue
+            if match and not match(message):
+                # The right type of message, but about something else
+                continue
             session.set_result(message)
             handled = True
         return handled
 
     def removeWaitingSession(self, session):
         """End a session. No more messages will be consumed by it."""
-        self._sessions = [item for item in self._sessions if item[1] is not session]
+        self._sessions = [item for item in self._sessions if item[2] is not session]
 
-    async def waitForMessage(self, msgType, timeout: int = 3, session=None):
+    async def waitForMessage(
+        self, msgType, timeout: int = 3, session=None, match=None
+    ):
         """Async method for waiting for a specific message to arrive from the node."""
         if session is None:
-            session = self.addWaitingSession(msgType)
+            session = self.addWaitingSession(msgType, match)
         try:
             await asyncio.wait([session], timeout=timeout)
         finally:
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 4cbb867..26de75f 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -202,7 +202,13 @@ class ZIPGateway(ZIPConnection):
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await self.waitForMessage(
+            ZipND.ZipNodeAdvertisement,
+            timeout=3,
+            match=lambda advertisement: (
+                advertisement.nodeId == nodeId and advertisement.ipv6 is not None
+            ),
+        )
         return response.ipv6
 
     async def removeFailedNode(
-- 
2.43.0


From b97d45b477e669a2cdaa139a865eda2dd75c28ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 08/39] fix: network management sequence numbers must wrap at 8
 bits

---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 26de75f..2f71191 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -33,7 +33,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -49,7 +49,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -62,7 +62,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -76,7 +76,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -108,7 +108,7 @@ class ZIPGateway(ZIPConnection):
             return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -119,7 +119,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -135,7 +135,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -152,7 +152,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -168,7 +168,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -214,7 +214,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -229,7 +229,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -241,7 +241,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From 99171918e59404131075b20b775d6c36dedf2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 09/39] fix: inclusion and exclusion commands must report if
 the gateway did not acknowledge them

---
 pyzwave/zipgateway.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 2f71191..9bad37c 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -41,10 +41,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
@@ -54,10 +53,9 @@ class ZIPGateway(ZIPConnection):
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
@@ -70,10 +68,9 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeStop(self) -> bool:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -83,10 +80,9 @@ class ZIPGateway(ZIPConnection):
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def connect(self):
         await super().connect()
@@ -235,10 +231,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def removeNodeStop(self) -> bool:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -247,10 +242,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     def onMessageReceived(self, connection: ZIPConnection, message: Message):
         """Called when a message is received from any node connection. Not unsolicited."""
-- 
2.43.0


From 854669309d169ce3b41396637a2721bea1855c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 10/39] fix: node list updates must be handled in order and
 survive lost addresses

---
 pyzwave/zipgateway.py | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 9bad37c..2b57122 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -30,6 +30,8 @@ class ZIPGateway(ZIPConnection):
         self._connections = {}
         self._connectLocks = {}
         self._nodes = {}
+        # Must be held while updating the node list
+        self._nodeListLock = asyncio.Lock()
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
@@ -148,6 +150,14 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
+        async with self._nodeListLock:
+            return await self.__requestNodeList__()
+
+    async def __requestNodeList__(self) -> set:
+        """Request the node list from the gateway"""
+        if self._nodes:
+            # Received while waiting for our turn
+            return set(self._nodes.keys())
         self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
@@ -180,6 +190,14 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
+        # The reports must be handled one at a time, in the order they were received
+        async with self._nodeListLock:
+            await self.__updateNodeList__(report)
+        self.speak("nodeListUpdated")
+
+    async def __updateNodeList__(self, report: NetworkManagementProxy.NodeListReport):
+        """Add and remove nodes to match the report"""
+        self._nodeId = report.nodeListControllerId
         # Find removed nodes
         for nodeId in list(self._nodes.keys()):
             if nodeId in report.nodes:
@@ -190,9 +208,19 @@ class ZIPGateway(ZIPConnection):
         for nodeId in report.nodes:
             if nodeId in self._nodes:
                 continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
-        self.speak("nodeListUpdated")
+            self._nodes[nodeId] = {}
+        await self.__updateNodeAddresses__()
+
+    async def __updateNodeAddresses__(self):
+        """Retrieve the ip address of the nodes where it is not known"""
+        for nodeId, node in self._nodes.items():
+            if node.get("ip"):
+                continue
+            try:
+                node["ip"] = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                # Try again the next time the node list is updated
+                _LOGGER.warning("Could not get the ip address of node %s", nodeId)
 
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
@@ -329,6 +357,6 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.getNodeList()
+        async with self._nodeListLock:
+            await self.__updateNodeAddresses__()
-- 
2.43.0


From b4a19731672ec86db9acbf7778f3f45df239bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 11/39] fix: overlapping node list updates and startup must
 announce every node once

---
 pyzwave/application.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..9ddcd60 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,10 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        # The nodes the listeners has been told about
+        self._announced = set()
+        # Must be held while adding or removing nodes
+        self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,6 +102,12 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
+        # Only one update at a time, or nodes could be added or removed more than once
+        async with self._nodesLock:
+            await self.__updateNodes__()
+
+    async def __updateNodes__(self):
+        """Add and remove nodes to match the list of nodes in the adapter"""
         nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
@@ -105,6 +116,7 @@ class Application(Listenable):
             nodesToRemove.append(nodeId)
         for nodeId in nodesToRemove:
             del self._nodes[nodeId]
+            self._announced.discard(nodeId)
             await self.ask("nodeRemoved", nodeId)
         # For clients supporting batch removing
         if nodesToRemove:
@@ -119,6 +131,7 @@ class Application(Listenable):
 
         if newNodes:
             await self.ask("nodesAdded", newNodes)
+        self._announced.update(node.nodeId for node in newNodes)
         for node in newNodes:
             await self.ask("nodeAdded", node)
 
@@ -167,12 +180,24 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
+        async with self._nodesLock:
+            await self.__loadNodes__()
+
+    async def __loadNodes__(self):
+        """Load all nodes from the adapter"""
         for nodeId in await self.adapter.getNodeList():
+            if "{}:0".format(nodeId) in self._announced:
+                # The node list has been updated already
+                continue
             await self.loadNode(nodeId)
 
         for nodeId in await self.adapter.getFailedNodeList():
             _LOGGER.warning("FAILED node %s", nodeId)
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
+        newNodes = [
+            node for node in self._nodes.values() if node.nodeId not in self._announced
+        ]
+        self._announced.update(node.nodeId for node in newNodes)
+        await self.ask("nodesAdded", newNodes)
+        for node in newNodes:
             await self.ask("nodeAdded", node)
-- 
2.43.0


From 420380d50dce82a867332118e31b3b44f76d14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 12/39] fix: node lists must include nodes 225 to 232

---
 pyzwave/commandclass/NetworkManagementProxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..0c3c70f 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,7 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(29):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From a5af1c7e32bfca39533b83bd7b8823faf2ce4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 13/39] fix: answers to other network management commands must
 not be taken for the answer to this one

---
 pyzwave/zipgateway.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 2b57122..a1ec39e 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -33,6 +33,8 @@ class ZIPGateway(ZIPConnection):
         # Must be held while updating the node list
         self._nodeListLock = asyncio.Lock()
         self._nmSeq = 0
+        # Sequence numbers that has been used in network management commands
+        self._nmSeqUsed = set()
 
     async def addNode(self, txOptions: TxOptions) -> bool:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -322,6 +324,32 @@ class ZIPGateway(ZIPConnection):
         )
         return False
 
+    async def sendAndReceive(
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
+    ) -> Message:
+        """
+        Send a message and wait for the response. Responses to other network management
+        commands than this one are not considered.
+        """
+        seqNo = cmd.seqNo
+        if seqNo is not None:
+            self._nmSeqUsed.add(seqNo)
+
+        def isResponse(report: Message) -> bool:
+            if report.seqNo != seqNo and report.seqNo in self._nmSeqUsed:
+                # The response to another command
+                return False
+            for attr in ("nodeID", "endPoint"):
+                expected, value = getattr(cmd, attr), getattr(report, attr)
+                if None not in (expected, value) and expected != value:
+                    # About another node or endpoint
+                    return False
+            return match is None or match(report)
+
+        return await super().sendAndReceive(
+            cmd, waitFor, timeout, match=isResponse, **kwargs
+        )
+
     async def sendToNode(self, nodeId: int, cmd: Message, **kwargs) -> bool:
         conn = await self.connectToNode(nodeId)
         return await conn.send(cmd, **kwargs)
-- 
2.43.0


From f2c67a4293f82ae3d624b253423bec4826e95c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 14/39] fix: answers about another parameter, version, sensor
 type or group must not be taken for the requested one

---
 pyzwave/commandclass/Association.py      | 5 ++++-
 pyzwave/commandclass/CommandClass.py     | 4 ++++
 pyzwave/commandclass/Configuration.py    | 6 +++++-
 pyzwave/commandclass/SensorMultilevel.py | 4 +++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..9b69c7c 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -149,10 +149,13 @@ class Association(CommandClass):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
+                match=lambda report: report.groupingIdentifier == groupingIdentifier,
             )
         else:
             report = await self.sendAndReceive(
-                Get(groupingIdentifier=groupingIdentifier), Report
+                Get(groupingIdentifier=groupingIdentifier),
+                Report,
+                match=lambda report: report.groupingIdentifier == groupingIdentifier,
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..78b05b1 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -162,6 +162,10 @@ class CommandClass(AttributesMixin, Listenable):
             answer = await self._node.sendAndReceive(
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
+                match=lambda report: (
+                    report.requestedCommandClass == self.id
+                    and report.commandClassVersion is not None
+                ),
             )
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..a0ea4b4 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -135,7 +135,11 @@ class Configuration(CommandClass):
         """Request configuration value from node. Return the cached value if it is already known."""
         if cached and number in self.parameters:
             return self.parameters[number].value
-        report: Report = await self.sendAndReceive(Get(parameterNumber=number), Report)
+        report: Report = await self.sendAndReceive(
+            Get(parameterNumber=number),
+            Report,
+            match=lambda report: report.parameterNumber == number,
+        )
         return report.value
 
     async def set(self, parameterNumber: int, size: Size, value: int) -> bool:
diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..2dbfe03 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -181,6 +181,8 @@ class SensorMultilevel(CommandClass):
         )
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
-                SupportedGetScale(sensorType=sensor), SupportedScaleReport
+                SupportedGetScale(sensorType=sensor),
+                SupportedScaleReport,
+                match=lambda report, sensor=sensor: report.sensorType == sensor,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
-- 
2.43.0


From 3815661b3987421acf192ac1f251f9b7e431e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 15/39] fix: supported sensor types above 8 or without a name
 must be decoded

---
 pyzwave/commandclass/SensorMultilevel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 2dbfe03..7a70a6e 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,11 +56,15 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                try:
+                    supported.add(SensorType(i))
+                except ValueError:
+                    # A type we do not know the name of
+                    supported.add(i)
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From cc62260a75537721f4b4e7d6541de326adecb956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 16/39] fix: restore saved values, types and interview state on
 current Python versions

---
 pyzwave/commandclass/AssociationGrpInfo.py | 12 +++++++++++-
 pyzwave/commandclass/CommandClass.py       |  6 +++++-
 pyzwave/util.py                            | 11 ++++++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..a48e818 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -23,6 +23,16 @@ from . import ZWaveMessage, ZWaveMessageHandler, ZWaveCommandClass
 from .CommandClass import DictAttribute, CommandClass
 
 
+class Commands(list):
+    """The commands sent by an association group"""
+
+    def __getstate__(self):
+        return [[int(value) for value in command] for command in self]
+
+    def __setstate__(self, state):
+        self[:] = [[int(value) for value in command] for command in state]
+
+
 class Group(DictAttribute):
     """Attribute for an association group"""
 
@@ -31,7 +41,7 @@ class Group(DictAttribute):
         # ("mode", uint8_t),  # Not used according to docs, always zero. No need to save it
         ("profile", uint16_t),
         # ("eventCode", uint16_t),  # Not used according to docs, always zero. No need to save it
-        ("commands", list),
+        ("commands", Commands),
     )
 
 
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 78b05b1..bd1d1dd 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -205,7 +205,11 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        interviewed = state.get("interviewed", False)
+        if isinstance(interviewed, str):
+            # Restored from storage, where all values are strings
+            interviewed = interviewed.lower() == "true"
+        self._interviewed = bool(interviewed)
         super().__setstate__(state)
 
     @staticmethod
diff --git a/pyzwave/util.py b/pyzwave/util.py
index d8ecf34..f232772 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,15 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def hasCustomState(value) -> bool:
+    """
+    Returns if the type of the value implements __getstate__. Starting with Python 3.11
+    every object has a default implementation, which is not useful for native types.
+    """
+    method = getattr(type(value), "__getstate__", None)
+    return method is not None and method is not getattr(object, "__getstate__", None)
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -80,7 +89,7 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
+            if hasCustomState(value):
                 values[attr] = value.__getstate__()
             else:
                 values[attr] = value
-- 
2.43.0


From 4f9618979d00e197f1c8ff9f14de1b2b21565138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 17/39] fix: saving a node must never leave a damaged file
 behind

---
 pyzwave/persistantstorage.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..b05ff96 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 import logging
+import os
 import pathlib
 import yaml
 
@@ -46,8 +47,15 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
-        with open(self.pathForNode(node.nodeId), "w") as fd:
+        path: pathlib.Path = self.pathForNode(node.nodeId)
+        path.parent.mkdir(parents=True, exist_ok=True)
+        # Do not touch the old file until the new one is complete, in case anything happens
+        tmpPath = path.with_suffix(".tmp")
+        with tmpPath.open("w") as fd:
             yaml.dump(settings, fd)
+            fd.flush()
+            os.fsync(fd.fileno())
+        os.replace(tmpPath, path)
 
     @property
     def path(self) -> str:
-- 
2.43.0


From 9fef7ee975f14fc9b0f0339e3113fab0c3925a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 18/39] fix: nested and overlapping storage locks must not save
 early or lose the save

---
 pyzwave/node.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 5cdb0a5..98869f1 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -72,6 +72,8 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        # Number of storage locks currently held
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -275,14 +277,21 @@ class Node(Listenable, MessageWaiter):
                 # Nothing will be stored to disk.
                 node.interview()
             # The storage will happen here, only once
+
+        The locks may be nested or overlapping, the storage will happen when the last
+        one is released.
         """
+        self._storageLocks += 1
         try:
-            self._storageStatus = StorageStatus.LOCKED_CLEAN
+            if self._storageStatus == StorageStatus.CLEAN:
+                self._storageStatus = StorageStatus.LOCKED_CLEAN
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                status, self._storageStatus = self._storageStatus, StorageStatus.CLEAN
+                if status == StorageStatus.LOCKED_DIRTY:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 4fb8327de6fa5f9e07f500cad11c26ce0f1e0345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 19/39] fix: a failing coroutine listener must not affect the
 others or the caller

---
 pyzwave/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index f232772..e2106c9 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -145,7 +145,16 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        results = await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        )
+        retval = []
+        for result in results:
+            if isinstance(result, BaseException):
+                _LOGGER.warning("Error calling listener.%s: %r", message, result)
+                continue
+            retval.append(result)
+        return retval
 
     def speak(self, message, *args) -> list:
         """
-- 
2.43.0


From 70cfb8638d11f2b7220cbe4e68779484f001a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 20/39] fix: a supervised message must be answered even if a
 handler fails

---
 pyzwave/node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 98869f1..46ead04 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,7 +27,13 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
-        if await func(self, message.command, flags):
+        try:
+            handled = await func(self, message.command, flags)
+        except Exception:
+            # The node must be told even if the message could not be handled
+            _LOGGER.exception("Error handling supervised message %s", message.command)
+            handled = False
+        if handled:
             await self.send(
                 Supervision.Report(
                     moreStatusUpdates=False,
-- 
2.43.0


From 45d2bcc68d184445c4e84c9dee8ebd491719c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 21/39] fix: an error in one command class must not stop the
 interview of the others

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 46ead04..e4498fb 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -197,6 +197,9 @@ class Node(Listenable, MessageWaiter):
                 await cmdClass.interview()
             except asyncio.TimeoutError:
                 _LOGGER.warning("Timeout interviewing %s", cmdClass.name)
+            except Exception:
+                # Do not let one command class stop the interview of the others
+                _LOGGER.exception("Error interviewing %s", cmdClass.name)
 
     @property
     def isFailed(self) -> bool:
-- 
2.43.0


From a8c8caf98e945b1f5e6176d83f4838b7bad921df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 22/39] fix: learned association data and unfinished interviews
 must be saved

---
 pyzwave/commandclass/Association.py        | 1 +
 pyzwave/commandclass/AssociationGrpInfo.py | 5 +++++
 pyzwave/commandclass/CommandClass.py       | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 9b69c7c..1a0a675 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -162,6 +162,7 @@ class Association(CommandClass):
             return
         group.maxNodes = report.maxNodesSupported
         group.nodes = report.nodes
+        self.speak("commandClassUpdated")
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index a48e818..8808128 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -180,13 +180,17 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.groupingIdentifier not in self.groupings:
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
         for group in report.groups:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
+            self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
@@ -200,6 +204,7 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
     async def interview(self):
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index bd1d1dd..87b70c5 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -1,4 +1,5 @@
 import asyncio
+import copy
 import logging
 from typing import Dict, Any
 
@@ -75,11 +76,15 @@ def interviewDecorator(interview):
                 "Unable to determine command class version for %s", commandClass.name,
             )
             return
+        state = copy.deepcopy(commandClass.__getstate__())
         try:
             commandClass._interviewed = False  # pylint: disable=protected-access
             retval = await interview()
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
+            if commandClass.__getstate__() != state:
+                # Parts of the interview was done
+                commandClass.speak("commandClassUpdated")
             return False
         if retval is not False:
             commandClass._interviewed = True  # pylint: disable=protected-access
-- 
2.43.0


From a12fdb670892116b4afc9769389631d535e392a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 23/39] fix: the mailbox must not lose, reorder or duplicate
 messages nor stop its heartbeats

---
 pyzwave/mailbox.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..286004b 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -58,15 +58,22 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._sendHeartbeat(operation)
+            except Exception as error:
+                # The entry is still queued. Try again the next time.
+                _LOGGER.warning("Could not send mailbox heartbeat: %r", error)
+
+    async def _sendHeartbeat(self, operation: Mailbox.Queue.Operation):
+        await self._adapter.sendToNode(
+            self._nodeId,
+            Mailbox.Queue(
+                last=False,
+                operation=operation,
+                queueHandle=self._handle,
+                mailboxEntry=self._data,
+            ),
+        )
 
 
 class MailboxService:
@@ -77,6 +84,9 @@ class MailboxService:
         self._adapter.addListener(self)
         self._lastQueueId = None
         self._queue = {}
+        # Only one message may be added to and delivered from each queue at a time
+        self._pushLocks = {}
+        self._popLocks = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
         """Initialize the mailbox"""
@@ -88,6 +98,10 @@ class MailboxService:
         return await self._adapter.send(msg)
 
     async def __popQueue__(self, nodeId: int, queueHandle: int):
+        async with self._popLocks.setdefault(queueHandle, asyncio.Lock()):
+            return await self.__popNext__(nodeId, queueHandle)
+
+    async def __popNext__(self, nodeId: int, queueHandle: int):
         _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
         if not self._queue.get(queueHandle, None):
             return await self._adapter.sendToNode(
@@ -98,11 +112,12 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
+        # The message must be left in the queue until we know it has been delivered
+        queueItem = self._queue[queueHandle][0]
         ret = await self._adapter.sendToNode(
             nodeId,
             Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
+                last=len(self._queue[queueHandle]) == 1,
                 operation=Mailbox.Queue.Operation.POP,
                 queueHandle=queueHandle,
                 mailboxEntry=queueItem.data,
@@ -110,10 +125,15 @@ class MailboxService:
         )
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
+            self._queue[queueHandle].remove(queueItem)
             queueItem.stop()
         return True
 
     async def __pushQueue__(self, nodeId: int, queueHandle: int, message: bytes):
+        async with self._pushLocks.setdefault(queueHandle, asyncio.Lock()):
+            return await self.__pushNext__(nodeId, queueHandle, message)
+
+    async def __pushNext__(self, nodeId: int, queueHandle: int, message: bytes):
         queueItem = QueueItem(nodeId, queueHandle, message, self._adapter)
         checksum = queueItem.checksum
         for item in self._queue.setdefault(queueHandle, []):
-- 
2.43.0


From 021ceafd7dbb51268c5b208408242a2e39ceb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 24/39] fix: bad or incomplete datagrams must be ignored on all
 sockets

---
 pyzwave/zipconnection.py |  2 +-
 pyzwave/zipgateway.py    | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 6e599b8..4756daa 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -99,7 +99,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index a1ec39e..4973fb4 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -130,7 +130,7 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
@@ -169,6 +169,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            _LOGGER.warning("Got an incomplete node list report")
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: {} for x in report.nodes}
         return report.nodes
@@ -295,11 +298,21 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode unsolicited message. Raw message: %s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket) or zipPkt.command is None:
+            _LOGGER.warning("Ignoring unsolicited message without command: %s", zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.command.nodes is None:
+                _LOGGER.warning("Ignoring incomplete node list report")
+                return False
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
 
         # Find the node this was from
-- 
2.43.0


From 06005a9f95dd02685d34d9739ca723bede160f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 25/39] fix: a listener raising CancelledError must not stop
 the others from being called

---
 pyzwave/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index e2106c9..3df5c8d 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -175,8 +175,8 @@ class Listenable:
                 future = asyncio.get_event_loop().create_future()
                 future.set_result(method(self, *args))
                 retval.append(future)
-            except Exception as error:
-                _LOGGER.warning("Error calling listener.%s: %s", message, error)
+            except (Exception, asyncio.CancelledError) as error:
+                _LOGGER.warning("Error calling listener.%s: %r", message, error)
         return retval
 
 
-- 
2.43.0


From 884e66f010df15e40464fc7cbce6493bb2d36e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 26/39] fix: updates received while starting must not replace
 the saved data of a node

---
 pyzwave/application.py       |  2 ++
 pyzwave/persistantstorage.py | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 9ddcd60..64304dd 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -45,6 +45,7 @@ class Application(Listenable):
         nodeEP.addListener(self._storage)
         nodeEP.genericDeviceClass = report.genericDeviceClass
         nodeEP.specificDeviceClass = report.specificDeviceClass
+        self.speak("nodeLoaded", nodeEP)
         self._nodes[nodeEP.nodeId] = nodeEP
         return nodeEP
 
@@ -64,6 +65,7 @@ class Application(Listenable):
         # node.isFailed = ?
         node.listening = nodeInfo.listening
         node.specificDeviceClass = nodeInfo.specificDeviceClass
+        self.speak("nodeLoaded", node)
         self._nodes[node.nodeId] = node
 
         if node.supports(COMMAND_CLASS_MULTI_CHANNEL_V2):
diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index b05ff96..85d7c88 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -3,6 +3,7 @@
 import logging
 import os
 import pathlib
+import weakref
 import yaml
 
 from pyzwave.commandclass import CommandClass
@@ -17,6 +18,12 @@ class PersistantStorage:
     def nodeAdded(self, application, node: Node):
         """Called when a new node has been added and/or loaded"""
 
+    def nodeLoaded(self, application, node: Node):
+        """
+        Called when a node has been loaded but not been added yet. The node does not
+        receive any messages before this has been called.
+        """
+
     def nodeUpdated(self, node: Node):
         """
         Called then the settings for a node or one of it's command classes
@@ -29,8 +36,17 @@ class YamlStorage(PersistantStorage):
 
     def __init__(self, path):
         self._path = path
+        # The nodes already restored from the storage
+        self._restored = weakref.WeakSet()
+
+    def nodeLoaded(self, application, node: Node):
+        # Restore before any update is received, or the update would replace the saved data
+        self.nodeAdded(application, node)
 
     def nodeAdded(self, application, node: Node):
+        if node in self._restored:
+            return
+        self._restored.add(node)
         path: pathlib.Path = self.pathForNode(node.nodeId)
         if not path.exists():
             return
-- 
2.43.0


From 245c4c4f101990d5b653cc2a392c4b5c9382705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 27/39] fix: an interview that was cancelled or failed must
 save what it learned

---
 pyzwave/commandclass/CommandClass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 87b70c5..9a4fc72 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -80,11 +80,13 @@ def interviewDecorator(interview):
         try:
             commandClass._interviewed = False  # pylint: disable=protected-access
             retval = await interview()
-        except asyncio.TimeoutError:
-            _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
+        except (Exception, asyncio.CancelledError) as error:
             if commandClass.__getstate__() != state:
                 # Parts of the interview was done
                 commandClass.speak("commandClassUpdated")
+            if not isinstance(error, asyncio.TimeoutError):
+                raise
+            _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
             return False
         if retval is not False:
             commandClass._interviewed = True  # pylint: disable=protected-access
-- 
2.43.0


From 6e923ec00f640fbcdbe2b554c032f08891615abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 28/39] fix: sensor types and groups a node no longer reports
 must be forgotten

---
 pyzwave/commandclass/Association.py      | 4 ++++
 pyzwave/commandclass/SensorMultilevel.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1a0a675..3caf68f 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -113,6 +113,10 @@ class Groupings(dict):
                 group.maxNodes = 0
                 group.multiChannelMaxNodes = 0
                 self[i] = group
+        for i in list(self):
+            if i > number:
+                # Not supported any more
+                del self[i]
 
     def __getstate__(self):
         return {group: value.__getstate__() for group, value in self.items()}
diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7a70a6e..a8dfa8c 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -190,3 +190,7 @@ class SensorMultilevel(CommandClass):
                 match=lambda report, sensor=sensor: report.sensorType == sensor,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
+        for sensor in list(self.supportedTypes):
+            if sensor not in report.bitMask:
+                # Not supported any more
+                del self.supportedTypes[sensor]
-- 
2.43.0


From 75a1ae2d5cbcff48aa95fa132bf0dd2c5fb7f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 29/39] fix: an incomplete failed node list must not stop the
 startup

---
 pyzwave/zipgateway.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 4973fb4..b3fd704 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -116,6 +116,9 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
+        if report.failedNodeList is None:
+            _LOGGER.warning("Got an incomplete failed node list report")
+            return set()
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-- 
2.43.0


From c9eb2f2643d7b4344d8660142b90673ac2e38140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 30/39] fix: a list of command classes that ends within a mark
 must not stop the startup

---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index e4498fb..fb4ccc1 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -93,7 +93,7 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            if cmdClass == 0xF1 and list(cmdClasses[i + 1 : i + 2]) == [0x00]:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From 286e493a64118979326be9a282ab334fe38737bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 31/39] fix: a stop request during the DTLS handshake must not
 be lost

---
 pyzwave/dtlsconnection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 133aef1..fb2b8cc 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -57,6 +57,7 @@ class DTLSConnection(threading.Thread):
         self._address = address
         self._psk = psk
         self._connectionEvent.clear()
+        self._running = True
         self.start()
         await asyncio.wait_for(self._connectionEvent.wait(), timeout=10)
 
@@ -64,12 +65,12 @@ class DTLSConnection(threading.Thread):
         """Start server socket"""
         self._server = True
         self._psk = psk
+        self._running = True
         self.start()
 
     def run(self):  # pylint: disable=missing-function-docstring
         self._sock = self.createDtlsPskSock()
         self._loop.call_soon_threadsafe(self._connectionEvent.set)
-        self._running = True
         while self._running:
             try:
                 if self._server:
-- 
2.43.0


From 54b3b8ad4a48395e8268170e2559aa07f0696d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 32/39] fix: accept a dsk_t, such as the one in a
 NodeAddDSKReport, where a DSK is set

---
 pyzwave/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..1f98584 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -353,6 +353,9 @@ class dsk_t:  # pylint: disable=invalid-name
         return self.__getstate__() == other
 
     def __setstate__(self, state):
+        if isinstance(state, dsk_t):
+            self._dsk = state._dsk  # pylint: disable=protected-access
+            return
         if isinstance(state, bytes):
             if len(state) == 16 or len(state) == 0:
                 self._dsk = state
-- 
2.43.0


From 3c7d925f15dca7b4f6db5008d7157f5f1d90168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 33/39] fix: overlapping interviews must not leave a mixture of
 two lists of sensor types

---
 pyzwave/commandclass/SensorMultilevel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index a8dfa8c..3f3edec 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -183,14 +183,19 @@ class SensorMultilevel(CommandClass):
         report: Message = await self.sendAndReceive(
             SupportedGetSensor(), SupportedSensorReport
         )
+        scales = {}
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
                 SupportedGetScale(sensorType=sensor),
                 SupportedScaleReport,
                 match=lambda report, sensor=sensor: report.sensorType == sensor,
             )
+            scales[int(sensor)] = scaleReport.scaleBitMask
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
+        # Record this as a whole, another interview could have changed it in between
+        for sensor, scale in scales.items():
+            self.supportedTypes[sensor] = scale
         for sensor in list(self.supportedTypes):
-            if sensor not in report.bitMask:
+            if sensor not in scales:
                 # Not supported any more
                 del self.supportedTypes[sensor]
-- 
2.43.0


From 497da2761cc119bca52501977ca93b80f059d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 34/39] fix: overlapping interviews of associations must not
 end with an error when the number of groups changes

---
 pyzwave/commandclass/Association.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 3caf68f..3af2053 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -139,7 +139,10 @@ class Association(CommandClass):
     async def interview(self):
         report = await self.sendAndReceive(GroupingsGet(), GroupingsReport)
         self.groupings.setNumGroups(report.supportedGroupings)
-        for identifier in self.groupings:
+        for identifier in list(self.groupings):
+            if identifier not in self.groupings:
+                # Removed by another interview
+                continue
             try:
                 await self.interviewGrouping(identifier)
             except asyncio.TimeoutError:
-- 
2.43.0


From ffe6faad00ff70d9a38af59860b5cb50248c0d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 35/39] fix: an incomplete configuration report does not tell a
 value

A report which ends before the value recorded the parameter with the value
and size 0 (or kept Configuration.get from working), which the next
Configuration.get returned as the cached value.
---
 pyzwave/commandclass/Configuration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index a0ea4b4..c743538 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -124,6 +124,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.value is None:
+            # The report is incomplete, it does not tell the value
+            return True
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
@@ -138,7 +141,9 @@ class Configuration(CommandClass):
         report: Report = await self.sendAndReceive(
             Get(parameterNumber=number),
             Report,
-            match=lambda report: report.parameterNumber == number,
+            match=lambda report: (
+                report.parameterNumber == number and report.value is not None
+            ),
         )
         return report.value
 
-- 
2.43.0


From 46e10f7ed4d8c53ed4ce0a1aabfee5244e2ecaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 36/39] fix: incomplete association group reports do not change
 the group

A name report without a name named the group "None", a command list report
without a list raised an error and an incomplete description of a group was
recorded as group 0.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8808128..b4a3d53 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -144,6 +144,9 @@ class GroupInfoReport(Message):
         """Parse groups"""
         retval = []
         for _ in range(int(self.groupCount)):
+            if stream.bytesLeft() < 7:
+                # The description of this group is incomplete
+                break
             grp = GroupInfoGroupType()
             grp.parseAttributes(stream)
             retval.append(grp)
@@ -182,13 +185,16 @@ class AssociationGrpInfo(CommandClass):
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
         if report.groupingIdentifier not in self.groupings:
             return True
+        if report.commandClass is None:
+            # The report is incomplete
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
         self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
-        for group in report.groups:
+        for group in report.groups or []:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
             self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
@@ -203,6 +209,9 @@ class AssociationGrpInfo(CommandClass):
     async def __groupNameReport__(self, report: GroupNameReport, _flags):
         if report.groupingIdentifier not in self.groupings:
             return True
+        if report.name is None:
+            # The report is incomplete
+            return True
         self.groupings[report.groupingIdentifier].name = report.name
         self.speak("commandClassUpdated")
         return True
-- 
2.43.0


From f974f61f9547b3781c46e5f083dcb480c93daf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 37/39] fix: record all groups of a report before asking for
 their names

The groups were recorded one by one, with the requests for names and command
lists in between. A newer report arriving meanwhile was overwritten with the
outdated rest of the older one, together with the names and command lists
already learned.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index b4a3d53..37729cf 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -197,6 +197,8 @@ class AssociationGrpInfo(CommandClass):
         for group in report.groups or []:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
             self.speak("commandClassUpdated")
+        # Ask for the rest when all groups are recorded, this report could be outdated by then
+        for group in report.groups or []:
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
-- 
2.43.0


From 9a2f778e06405a136ef20b15a12bc744c4eacb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 38/39] fix: ignore incomplete reports when interviewing
 association groups

A truncated report ended the interview with a TypeError and kept the other
groups, and the lifeline, from being handled.
---
 pyzwave/commandclass/Association.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 3af2053..3091b9b 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -137,7 +137,11 @@ class Association(CommandClass):
     attributes = (("groupings", Groupings),)
 
     async def interview(self):
-        report = await self.sendAndReceive(GroupingsGet(), GroupingsReport)
+        report = await self.sendAndReceive(
+            GroupingsGet(),
+            GroupingsReport,
+            match=lambda report: report.supportedGroupings is not None,
+        )
         self.groupings.setNumGroups(report.supportedGroupings)
         for identifier in list(self.groupings):
             if identifier not in self.groupings:
@@ -152,17 +156,25 @@ class Association(CommandClass):
     async def interviewGrouping(self, groupingIdentifier):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
+
+        def isReportForGroup(report):
+            return (
+                report.groupingIdentifier == groupingIdentifier
+                # The report is incomplete without this
+                and report.reportsToFollow is not None
+            )
+
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
-                match=lambda report: report.groupingIdentifier == groupingIdentifier,
+                match=isReportForGroup,
             )
         else:
             report = await self.sendAndReceive(
                 Get(groupingIdentifier=groupingIdentifier),
                 Report,
-                match=lambda report: report.groupingIdentifier == groupingIdentifier,
+                match=isReportForGroup,
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
-- 
2.43.0


From 7710db2d2211e3725fc3145ae923f4f7cbce0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 39/39] fix: association group removed by another interview
 while setting up the lifeline

The interview ended with a KeyError.
---
 pyzwave/commandclass/Association.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 3091b9b..544f45b 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -209,6 +209,9 @@ class Association(CommandClass):
             await self.node.send(
                 Set(groupingIdentifier=groupingIdentifier, nodes=[controllerId])
             )
+        if groupingIdentifier not in self.groupings:
+            # Removed by another interview
+            return
         await self.interviewGrouping(groupingIdentifier)
 
 
-- 
2.43.0

