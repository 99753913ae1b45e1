From e2d4691df782e4d5c304f178277b36ab833a6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 01/31] fix: combine the first two OID arcs by addition when
 encoding

---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From db6778c37986b5fee00d5bdfdd19abbd58c41e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 02/31] fix: reject an OID whose last sub-identifier is cut off
 after a zero byte

---
 snmp/asn1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..f5b711c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -417,15 +417,18 @@ class OBJECT_IDENTIFIER(Primitive):
             raise ParseError(f"Empty {typename(cls)}") from err
 
         value = 0
+        incomplete = False
         for byte in stream:
             value |= byte & 0x7f
             if byte & 0x80:
                 value <<= 7
+                incomplete = True
             else:
                 oid.append(value)
                 value = 0
+                incomplete = False
 
-        if value:
+        if incomplete:
             raise ParseError(f"{typename(cls)} ended unexpectedly")
 
         return cls.construct(*oid)
-- 
2.43.0


From 146ac1d1a25e9d4928663a085937e97cd134a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 03/31] fix: decode IpAddress, OID and string index fields as
 they are encoded

An IpAddress field has no length prefix, so it can not be read back as a
length-prefixed string. A truncated OID field and an out-of-range octet
raised RuntimeError and ValueError rather than IndexDecodeError.
---
 snmp/asn1.py | 14 ++++++++++----
 snmp/smi.py  |  9 +++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index f5b711c..e09be6e 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,10 +185,16 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            subidentifiers = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            subidentifiers = [next(nums) for _ in range(length)]
+
+        try:
+            data = bytes(subidentifiers)
+        except ValueError as err:
+            errmsg = f"Invalid {typename(cls)} field in index: {err}"
+            raise OBJECT_IDENTIFIER.IndexDecodeError(errmsg) from err
 
         try:
             return cls.construct(data)
@@ -331,10 +337,10 @@ class OBJECT_IDENTIFIER(Primitive):
         implied: bool = False,
     ) -> TOID:
         if implied:
-            subidentifiers = nums
+            subidentifiers = list(nums)
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = [next(nums) for _ in range(length)]
 
         try:
             return cls.construct(*subidentifiers)
diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..40a7487 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -121,6 +121,15 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(
+        cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        octets = (next(nums), next(nums), next(nums), next(nums))
+        return super().fromOID(iter(octets), implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From 9914148f9586277949f3bf8a7afbf92aa1512ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 04/31] fix: give subbytes the semantics of a bytes slice for
 crossed bounds and negative steps

---
 snmp/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..98ca354 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
@@ -177,6 +177,9 @@ class subbytes:
         if isinstance(key, int):
             key = self.translate(key)
         elif isinstance(key, slice):
+            if key.step is not None and key.step < 0:
+                return self.data[self.start:self.stop][key]
+
             start, stop = key.start, key.stop
 
             key = slice(
-- 
2.43.0


From e7fdaa904a57c1f2d616d7c4878a0ab52f52c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 05/31] fix: keep the engine boots and time within their range

The fields are INTEGER (0..2147483647). A negative value, or a time close
to the maximum, in an unauthenticated message made later requests to that
engine fail with OverflowError or ValueError.
---
 snmp/security/usm/parameters.py | 5 +++++
 snmp/security/usm/timekeeper.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..9cedd83 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            raise ParseError("engineBoots may not be less than 0")
+        elif engineTime.value < 0:
+            raise ParseError("engineTime may not be less than 0")
+
         return cls(
             engineID.data,
             engineBoots.value,
diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..7d6886a 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -4,6 +4,7 @@ from snmp.typing import *
 
 class EngineTime:
     MAX_ENGINE_BOOTS: ClassVar[int] = (1 << 31) - 1
+    MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
 
     def __init__(self,
         engineBoots: int,
@@ -28,7 +29,8 @@ class EngineTime:
         return self.snmpEngineBoots < self.MAX_ENGINE_BOOTS
 
     def snmpEngineTime(self, timestamp: float) -> int:
-        return int(timestamp - self.latestBootTime)
+        engineTime = int(timestamp - self.latestBootTime)
+        return max(0, min(engineTime, self.MAX_ENGINE_TIME))
 
     def setEngineTime(self, engineTime: int, timestamp: float) -> None:
         self.latestBootTime = timestamp - engineTime
-- 
2.43.0


From fbc1d42a56feb424870202786f437e0a58f07713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 06/31] fix: return exactly the bytes that OpenSSL wrote

The output buffer is larger than the output, so AES data came back with
trailing zero bytes, and the default padding made DES decryption hold back
the last block.
---
 snmp/cffi/openssl.py                       | 1 +
 snmp/openssl.pyi                           | 6 ++++++
 snmp/security/usm/priv/openssl/__init__.py | 4 +++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/snmp/cffi/openssl.py b/snmp/cffi/openssl.py
index 75c441e..dd755db 100644
--- a/snmp/cffi/openssl.py
+++ b/snmp/cffi/openssl.py
@@ -14,6 +14,7 @@ typedef struct evp_cipher_ctx_st EVP_CIPHER_CTX;
 
 EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void);
 void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c);
+int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX *c, int pad);
 
 int EVP_EncryptInit(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *type,
                     const unsigned char *key, const unsigned char *iv);
diff --git a/snmp/openssl.pyi b/snmp/openssl.pyi
index cddda38..78bf4de 100644
--- a/snmp/openssl.pyi
+++ b/snmp/openssl.pyi
@@ -30,6 +30,12 @@ class OpenSSL_LIB:
     def EVP_CIPHER_CTX_free(self, ctx: Pointer[EVP_CIPHER_CTX]) -> None:
         ...
 
+    def EVP_CIPHER_CTX_set_padding(self,
+        ctx: Pointer[EVP_CIPHER_CTX],
+        pad: int,
+    ) -> int:
+        ...
+
     def EVP_DecryptInit(self,
         ctx: Pointer[EVP_CIPHER_CTX],
         type: Pointer[EVP_CIPHER],
diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..0eecf2e 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -57,6 +57,8 @@ class Envelope:
             if not self.init(ctx, self.cipher(), key, iv):
                 raise Exception("Failed to initialize cipher context")
 
+            lib.EVP_CIPHER_CTX_set_padding(ctx, 0)
+
             inl = len(data)
             outl = ffi.new("int*")
             output = self.allocateOutputBuffer(len(data), self.cipher.BLOCKLEN)
@@ -64,7 +66,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output)[:outl[0]]
 
 class Decryptor(Envelope):
     ENCRYPT = False
-- 
2.43.0


From acb062941e70c8d62c27d8ba60e8763ddb595f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 07/31] fix: check the DES salt length and do not pad DES
 ciphertext

A short salt made a short IV, from which OpenSSL reads eight bytes anyway.
Padding the ciphertext appended a block of garbage to the plaintext.
---
 snmp/security/usm/priv/openssl/des.py      | 2 ++
 snmp/security/usm/priv/pycryptodome/des.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..2ecb3ca 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -41,6 +41,8 @@ class DesCbc(PrivProtocol):
         if len(data) % self.BLOCKLEN:
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
+        elif len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
 
         iv = self.computeIV(salt)
         return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..6b26e20 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -44,8 +44,10 @@ class DesCbc(PrivProtocol):
         if len(data) % self.BLOCKLEN:
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
+        elif len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
 
-        return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
+        return self.newCipher(self.computeIV(salt)).decrypt(data)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 987954e44164229e2eb1a8a50563831518124321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 08/31] fix: schedule a v1 or v2c request only after it is sent

Sending brings the time of the next refresh forward, so doing it after the
push left the heap out of order, and one request's timeout could hide
another's retransmissions.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..b116622 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -184,8 +184,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..6e99d87 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -184,8 +184,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From 7319dbcd57714578a041a90f98b69b434b22d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 09/31] fix: do not wait forever or fail when no v1 or v2c
 request is scheduled

Another thread could empty the heap between the test and the lock, which
raised IndexError, and an expired request made refresh() return None, so
that wait() would block with no timeout.
---
 snmp/manager/v1.py  | 9 +++++----
 snmp/manager/v2c.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index b116622..ad0ed2e 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -134,9 +134,12 @@ class SNMPv1Manager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
-        while self.requests:
+    def refresh(self) -> float:
+        while True:
             with self.lock:
+                if not self.requests:
+                    return 0.0
+
                 reference = self.requests[0]
                 request = reference()
 
@@ -153,8 +156,6 @@ class SNMPv1Manager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
-
     def sendPdu(self,
         pdu: PDU,
         handle: Request,
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 6e99d87..af2733b 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -134,9 +134,12 @@ class SNMPv2cManager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
-        while self.requests:
+    def refresh(self) -> float:
+        while True:
             with self.lock:
+                if not self.requests:
+                    return 0.0
+
                 reference = self.requests[0]
                 request = reference()
 
@@ -153,8 +156,6 @@ class SNMPv2cManager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
-
     def sendPdu(self,
         pdu: AnyPDU,
         handle: Request,
-- 
2.43.0


From 6ee8a2b60649931a88182c6f077b914ea96ce85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 10/31] fix: return a v1 or v2c response that arrived before
 wait() was called

A request whose time had run out by then reported a timeout, even though
its response was there.
---
 snmp/manager/v1.py  | 6 ++++--
 snmp/manager/v2c.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index ad0ed2e..9ff64b0 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -104,10 +104,12 @@ class Request(RequestHandle[Message]):
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index af2733b..9f5ec31 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -104,10 +104,12 @@ class Request(RequestHandle[Message]):
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
-- 
2.43.0


From 8818938f0a9c09e51cb8c7b23c3ad98205cc08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 11/31] fix: keep listening when a socket has nothing to
 receive after all

A datagram can be dropped between the readiness notification and the call
to recvfrom(), and Windows reports an unreachable peer as a connection
reset. Either error ended the listening thread.
---
 snmp/transport/generic/udp.py | 6 +++++-
 snmp/transport/posix/udp.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..2846996 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -52,7 +52,11 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         data, addr = self.r.recvfrom(len(STOPMSG))
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except (BlockingIOError, ConnectionError):
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..a7b1e9d 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,11 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except (BlockingIOError, ConnectionError):
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From c8e259b278ca9715a569feaec07fe59d2dd479a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 12/31] fix: report an unsupported transport domain as a
 ValueError

---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From 64bae4d99a0ad2723a3f9f73c2c8130101ed3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 13/31] fix: discard a v3 response that carries another
 request-id

RFC 3413 section 3.1 has the command generator compare the request-id of
the response with that of the request.
---
 snmp/manager/v3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..ddbac2c 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -262,7 +262,7 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
 
                 auth = response.header.flags.authFlag
                 self.request.processException(exception, auth)
-        else:
+        elif pdu.requestID == self.request.pdu.requestID:
             self.request.processResponse(cast(ResponsePDU, response))
 
     def close(self) -> None:
-- 
2.43.0


From 3c6fbfa89579d4e63c6f1b4c027bfd7478e08a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 14/31] fix: release the message ID of a v3 message whose
 request closes as it is sent

The listener thread can be preparing a retransmission just when the waiting
thread closes the request. Nothing ever removed the entry that was cached
after that.
---
 snmp/manager/v3.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index ddbac2c..cfc748a 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -228,12 +228,16 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
         self.request = weakref.proxy(request)
         self.messageID: Optional[int] = None
         self.callback: Optional[Callable[[int], None]] = None
+        self.closed = False
 
         self.synchronized = synchronized
 
     def addCallback(self, func: Callable[[int], None], msgID: int) -> None:
-        self.callback = func
         self.messageID = msgID
+        self.callback = func
+
+        if self.closed:
+            self.close()
 
     def push(self, response: SNMPv3Message) -> None:
         assert response.scopedPDU is not None
@@ -266,9 +270,12 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
             self.request.processResponse(cast(ResponsePDU, response))
 
     def close(self) -> None:
-        if self.callback is not None:
+        self.closed = True
+        callback = self.callback
+
+        if callback is not None:
             assert self.messageID is not None
-            self.callback(self.messageID)
+            callback(self.messageID)
             self.callback = None
 
 class Request:
-- 
2.43.0


From fae94ba1e5b6003dd3f45a9f2358166fbd6d6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 15/31] fix: close the pipe of a UDP multiplexor only once

An Engine that is shut down inside its own with block is shut down again on
the way out, and by then the descriptors may belong to something else.
---
 snmp/transport/posix/udp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index a7b1e9d..8144f43 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -48,7 +48,9 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
         for sock in self.sockets.values():
             sock.close()
 
-        os.close(self.w)
-        os.close(self.r)
+        if self.w >= 0:
+            os.close(self.w)
+            os.close(self.r)
+            self.w = self.r = -1
 
 UdpMultiplexor = PosixUdpMultiplexor
-- 
2.43.0


From a2492161c349bb38f9756c77f254acd722b64f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 16/31] fix: move the next refresh past a moment that it falls
 on exactly

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 9ff64b0..642c64b 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 9f5ec31..4d824d5 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index cfc748a..a87fccb 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -404,7 +404,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From dcf87a1b4f48a81e42fa9950cfb80421df8692b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 17/31] fix: stop waiting for a held v3 request at its own
 timeout

---
 snmp/manager/v3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index a87fccb..3f0d3a5 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -421,6 +421,7 @@ class Request:
             pdu = None
             while not self.expired:
                 timeout = self.manager.refresh()
+                timeout = min(timeout, self.expiration - time.time())
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From c994eb395e142c3fac039b62ec10d662b95831d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 18/31] fix: do not send v3 requests that are answered or
 expired

---
 snmp/manager/v3.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 3f0d3a5..fba67e1 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -331,6 +331,10 @@ class Request:
     def expired(self) -> bool:
         return self.expiration <= time.time()
 
+    @property
+    def pending(self) -> bool:
+        return not (self.event.is_set() or self.expired)
+
     @property
     def nextRefresh(self) -> float:
         return self._nextRefresh
@@ -541,7 +545,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and request.pending:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.send(self.engineID)
@@ -598,9 +602,10 @@ class SNMPv3UsmManager(Generic[T]):
         with self.lock:
             sendAll = self.state.onReport(engineID)
 
-            with self.activeLock:
-                request.send(engineID)
-                heapq.heapify(self.active)
+            if request.pending:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heapify(self.active)
 
             if sendAll:
                 self.updateState()
@@ -608,7 +613,7 @@ class SNMPv3UsmManager(Generic[T]):
                     reference = self.unsent.pop()
                     req = reference()
 
-                    if req is not None:
+                    if req is not None and req.pending:
                         with self.activeLock:
                             req.send(engineID)
                             heapq.heappush(self.active, reference)
-- 
2.43.0


From 178c0e6778bf8ba763b46c94c2b87222b6893e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 19/31] fix: stop waiting for a v1 or v2c request at its own
 timeout

---
 snmp/manager/v1.py  | 1 +
 snmp/manager/v2c.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 642c64b..3c64d83 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -103,6 +103,7 @@ class Request(RequestHandle[Message]):
         pdu: Optional[ResponsePDU] = None
         while not self.expired:
             timeout = self.manager.refresh()
+            timeout = min(timeout, self.expiration - time.time())
             if self.event.wait(timeout=timeout):
                 break
 
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 4d824d5..1ecd704 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -103,6 +103,7 @@ class Request(RequestHandle[Message]):
         pdu: Optional[ResponsePDU] = None
         while not self.expired:
             timeout = self.manager.refresh()
+            timeout = min(timeout, self.expiration - time.time())
             if self.event.wait(timeout=timeout):
                 break
 
-- 
2.43.0


From ad0943fde02197b540ad6660464adcf872b8a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 20/31] fix: send held v3 requests once a response synchronizes
 the manager

---
 snmp/manager/v3.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index fba67e1..f8f8302 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -609,14 +609,18 @@ class SNMPv3UsmManager(Generic[T]):
 
             if sendAll:
                 self.updateState()
-                while self.unsent:
-                    reference = self.unsent.pop()
-                    req = reference()
+                self.sendAll(engineID)
 
-                    if req is not None and req.pending:
-                        with self.activeLock:
-                            req.send(engineID)
-                            heapq.heappush(self.active, reference)
+    # Call this with self.lock held
+    def sendAll(self, engineID: bytes) -> None:
+        while self.unsent:
+            reference = self.unsent.pop()
+            request = reference()
+
+            if request is not None and request.pending:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heappush(self.active, reference)
 
     def processResponse(self,
         request: Request,
@@ -629,6 +633,7 @@ class SNMPv3UsmManager(Generic[T]):
             if self.state.onResponse(engineID, auth):
                 self.engineID = engineID
                 self.updateState()
+                self.sendAll(engineID)
 
             return True
 
-- 
2.43.0


From 00f23ccc34287df39c587249a3a1af230cf644fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 21/31] fix: report a failure to send a v3 request to its own
 waiter

---
 snmp/manager/v3.py | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index f8f8302..5e4b546 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -300,7 +300,7 @@ class Request:
         self.messages: Set[RequestMessage] = set()
 
         self.event = threading.Event()
-        self.exception: Optional[UnhandledReport] = None
+        self.exception: Optional[Exception] = None
         self.response: Optional[SNMPv3Message] = None
 
         self.expiration = now + timeout
@@ -358,7 +358,7 @@ class Request:
         if engineID != self.engineID:
             self.manager.onReport(self, engineID)
 
-    def processException(self, exception: UnhandledReport, auth: bool) -> None:
+    def processException(self, exception: Exception, auth: bool) -> None:
         if auth:
             if not self.event.is_set():
                 self.exception = exception
@@ -366,6 +366,11 @@ class Request:
         elif self.exception is None:
             self.exception = exception
 
+    # This request may be sent by a thread that is waiting for another one
+    def processSendFailure(self, exception: Exception) -> None:
+        exception.__cause__ = exception.__context__ = None
+        self.processException(exception.with_traceback(None), True)
+
     def processResponse(self, response: SNMPv3Message) -> None:
         #if random.randint(1, 3) % 3 != 0:
         #    return
@@ -410,7 +415,13 @@ class Request:
             # Calculating it like this mitigates over-delay
             periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
-            self.reallySend()
+
+            try:
+                self.reallySend()
+            except Exception as err:
+                self.processSendFailure(err)
+                return None
+
             return 0.0
         else:
             return timeToNextRefresh
@@ -420,6 +431,15 @@ class Request:
         self.nextRefresh = now + self.period
         self.reallySend(engineID)
 
+    def trySend(self, engineID: Optional[bytes] = None) -> bool:
+        try:
+            self.send(engineID)
+        except Exception as err:
+            self.processSendFailure(err)
+            return False
+
+        return True
+
     def wait(self) -> VarBindList:
         try:
             pdu = None
@@ -548,11 +568,12 @@ class SNMPv3UsmManager(Generic[T]):
                 if request is not None and request.pending:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
-                            request.send(self.engineID)
-                            heapq.heappush(self.active, reference)
-                            active = True
+                            if request.trySend(self.engineID):
+                                heapq.heappush(self.active, reference)
+                                active = True
 
-                        self.updateState()
+                        if active:
+                            self.updateState()
                     else:
                         self.unsent.appendleft(reference)
 
@@ -604,7 +625,7 @@ class SNMPv3UsmManager(Generic[T]):
 
             if request.pending:
                 with self.activeLock:
-                    request.send(engineID)
+                    request.trySend(engineID)
                     heapq.heapify(self.active)
 
             if sendAll:
@@ -619,8 +640,8 @@ class SNMPv3UsmManager(Generic[T]):
 
             if request is not None and request.pending:
                 with self.activeLock:
-                    request.send(engineID)
-                    heapq.heappush(self.active, reference)
+                    if request.trySend(engineID):
+                        heapq.heappush(self.active, reference)
 
     def processResponse(self,
         request: Request,
-- 
2.43.0


From 1589d164b4246c38a3bbc66de037e5405c027a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 22/31] fix: generate v3 request IDs one at a time

---
 snmp/manager/v3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 5e4b546..e58b7e8 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -509,7 +509,7 @@ class SNMPv3UsmManager(Generic[T]):
         self.activeLock = threading.Lock()
         self.active: List[ComparableWeakRef[Request, float]] = []
 
-        # protects self.unsent, self.state, and self.engineID
+        # protects self.generator, self.unsent, self.state, and self.engineID
         self.lock = threading.Lock()
         self.unsent: Deque[ComparableWeakRef[Request, float]] = deque()
 
@@ -692,7 +692,9 @@ class SNMPv3UsmManager(Generic[T]):
         if wait is None:
             wait = self.autowait
 
-        pdu.requestID = self.generateRequestID()
+        with self.lock:
+            pdu.requestID = self.generateRequestID()
+
         request = Request(pdu, self, user, securityLevel, **kwargs)
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
-- 
2.43.0


From e43e82872b3eef074b89a845c94b647c30359521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 23/31] fix: keep the state of a v3 manager that became active
 again

---
 snmp/manager/v3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e58b7e8..0dcf1fe 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -556,6 +556,11 @@ class SNMPv3UsmManager(Generic[T]):
     def poke(self) -> bool:
         active = False
         with self.lock:
+            with self.activeLock:
+                # Another thread may have sent a request since refresh() checked
+                if self.active:
+                    return True
+
             self.state.onInactive()
             self.updateState()
 
-- 
2.43.0


From 1de6cf13362a8b03f51b55a463af5cb70af9510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 24/31] fix: refresh a v3 request on time although it was held
 at first

---
 snmp/manager/v3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0dcf1fe..994f1c9 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -445,7 +445,10 @@ class Request:
             pdu = None
             while not self.expired:
                 timeout = self.manager.refresh()
-                timeout = min(timeout, self.expiration - time.time())
+                timeRemaining = self.expiration - time.time()
+
+                # This request may be sent for the first time in the meantime
+                timeout = min(timeout, self.period, timeRemaining)
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From 854d569ddf4637926aa4760f70070b040c0b08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 25/31] fix: draw every salt once although threads encrypt at
 the same time

---
 snmp/security/usm/priv/openssl/aes.py      | 11 ++++++++---
 snmp/security/usm/priv/openssl/des.py      | 10 ++++++++--
 snmp/security/usm/priv/pycryptodome/aes.py | 11 ++++++++---
 snmp/security/usm/priv/pycryptodome/des.py | 10 ++++++++--
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/aes.py b/snmp/security/usm/priv/openssl/aes.py
index 1bfe000..836c9dd 100644
--- a/snmp/security/usm/priv/openssl/aes.py
+++ b/snmp/security/usm/priv/openssl/aes.py
@@ -1,6 +1,7 @@
 __all__ = ["AesCfb128"]
 
 import os
+import threading
 
 from snmp.security.usm import DecryptionError, PrivProtocol
 from snmp.typing import *
@@ -23,6 +24,7 @@ class AesCfb128(PrivProtocol):
 
         self.key = key[:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def packIV(self, engineBoots: int, engineTime: int, salt: bytes) -> bytes:
         if len(salt) != self.SALTLEN:
@@ -34,6 +36,11 @@ class AesCfb128(PrivProtocol):
             salt
         ))
 
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -52,9 +59,7 @@ class AesCfb128(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
-
-        salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
+        salt = self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER)
         iv = self.packIV(engineBoots, engineTime, salt)
         ciphertext = Encryptor(self.CIPHER).encrypt(data, self.key, iv)
 
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 2ecb3ca..1d8ad45 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -1,6 +1,7 @@
 __all__ = ["DesCbc"]
 
 import os
+import threading
 
 from snmp.security.usm import DecryptionError, PrivProtocol
 from snmp.typing import *
@@ -24,6 +25,7 @@ class DesCbc(PrivProtocol):
         self.key = key[:self.BLOCKLEN]
         self.preIV = key[self.BLOCKLEN:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def computeIV(self, salt: bytes) -> bytes:
         return bytes(a ^ b for a, b in zip(self.preIV, salt))
@@ -32,6 +34,11 @@ class DesCbc(PrivProtocol):
         n = self.BLOCKLEN - (len(data) % self.BLOCKLEN)
         return data + bytes(n)
 
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -52,10 +59,9 @@ class DesCbc(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
         salt = b''.join((
             engineBoots.to_bytes(self.BLOCKLEN - self.SALTLEN, self.BYTEORDER),
-            self.salt.to_bytes(self.SALTLEN, self.BYTEORDER),
+            self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER),
         ))
 
         iv = self.computeIV(salt)
diff --git a/snmp/security/usm/priv/pycryptodome/aes.py b/snmp/security/usm/priv/pycryptodome/aes.py
index bcadae9..5b7d5e4 100644
--- a/snmp/security/usm/priv/pycryptodome/aes.py
+++ b/snmp/security/usm/priv/pycryptodome/aes.py
@@ -1,6 +1,7 @@
 __all__ = ["AesCfb128"]
 
 import os
+import threading
 
 from Crypto.Cipher import AES
 from Crypto.Cipher._mode_cfb import CfbMode
@@ -26,6 +27,7 @@ class AesCfb128(PrivProtocol):
 
         self.key = key[:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def newCipher(self, iv: bytes) -> CfbMode:
         return AES.new(
@@ -45,6 +47,11 @@ class AesCfb128(PrivProtocol):
             salt
         ))
 
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -63,9 +70,7 @@ class AesCfb128(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
-
-        salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
+        salt = self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER)
         iv = self.packIV(engineBoots, engineTime, salt)
         ciphertext = self.newCipher(iv).encrypt(data)
 
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index 6b26e20..8fc7b45 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -1,6 +1,7 @@
 __all__ = ["DesCbc"]
 
 import os
+import threading
 
 from Crypto.Cipher import DES
 from Crypto.Cipher._mode_cbc import CbcMode
@@ -24,6 +25,7 @@ class DesCbc(PrivProtocol):
         self.key = key[:self.BLOCKLEN]
         self.preIV = key[self.BLOCKLEN:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def computeIV(self, salt: bytes) -> bytes:
         return bytes(a ^ b for a, b in zip(self.preIV, salt))
@@ -35,6 +37,11 @@ class DesCbc(PrivProtocol):
         n = self.BLOCKLEN - (len(data) % self.BLOCKLEN)
         return data + bytes(n)
 
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -54,10 +61,9 @@ class DesCbc(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
         salt = b''.join((
             engineBoots.to_bytes(self.BLOCKLEN - self.SALTLEN, self.BYTEORDER),
-            self.salt.to_bytes(self.SALTLEN, self.BYTEORDER),
+            self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER),
         ))
 
         iv = self.computeIV(salt)
-- 
2.43.0


From bf0eca64a87c77938dcc5c5fa668b7840ca1ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 26/31] fix: keep the salt of a user that is added again

---
 snmp/security/usm/users.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/users.py b/snmp/security/usm/users.py
index 1302071..8cd1cba 100644
--- a/snmp/security/usm/users.py
+++ b/snmp/security/usm/users.py
@@ -97,7 +97,9 @@ class RemoteEngine:
         userName: bytes,
         credentials: Credentials,
     ) -> None:
-        self.users[userName] = credentials.localize(engineID)
+        # The credentials of a user do not change, and the salt must not restart
+        if userName not in self.users:
+            self.users[userName] = credentials.localize(engineID)
 
     def getCredentials(self, userName: bytes) -> LocalizedCredentials:
         try:
-- 
2.43.0


From b5d238c22a235c56643de93208efc047c782831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 27/31] fix: do not end a v3 request for an authenticated
 report of another engine

---
 snmp/manager/v3.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 994f1c9..e779c02 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -224,8 +224,13 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
         usmStatsDecryptionErrors:       DecryptionErrorReport,
     }
 
-    def __init__(self, request: "Request", synchronized: SharedBool) -> None:
+    def __init__(self,
+        request: "Request",
+        engineID: bytes,
+        synchronized: SharedBool,
+    ) -> None:
         self.request = weakref.proxy(request)
+        self.engineID = engineID
         self.messageID: Optional[int] = None
         self.callback: Optional[Callable[[int], None]] = None
         self.closed = False
@@ -264,7 +269,9 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
                 else:
                     exception = exc_type(response, varbind)
 
+                # Another engine cannot speak for the one that was asked
                 auth = response.header.flags.authFlag
+                auth = auth and response.securityEngineID == self.engineID
                 self.request.processException(exception, auth)
         elif pdu.requestID == self.request.pdu.requestID:
             self.request.processResponse(cast(ResponsePDU, response))
@@ -397,7 +404,7 @@ class Request:
         else:
             self.engineID = engineID
 
-        message = RequestMessage(self, self.synchronized)
+        message = RequestMessage(self, engineID, self.synchronized)
         self.messages.add(message)
         self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
 
-- 
2.43.0


From ddafddc363ba9cfb65957fdd7e4bfeb4fa13e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 28/31] fix: keep waiting when an unauthenticated report names
 an unusable engine ID

---
 snmp/manager/v3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e779c02..9d2625c 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -441,6 +441,10 @@ class Request:
     def trySend(self, engineID: Optional[bytes] = None) -> bool:
         try:
             self.send(engineID)
+        except DiscoveryError as err:
+            # Nobody has authenticated this engine ID, so keep trying
+            err.__cause__ = err.__context__ = None
+            self.processException(err.with_traceback(None), False)
         except Exception as err:
             self.processSendFailure(err)
             return False
-- 
2.43.0


From b95ad9c6a0c6b6ea1f2362a24516ba2c7e5c001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 29/31] fix: let a held v3 request probe once a response has
 not settled the engine ID

---
 snmp/manager/v3.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 9d2625c..25f1757 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -652,7 +652,7 @@ class SNMPv3UsmManager(Generic[T]):
                 self.sendAll(engineID)
 
     # Call this with self.lock held
-    def sendAll(self, engineID: bytes) -> None:
+    def sendNext(self, engineID: bytes) -> bool:
         while self.unsent:
             reference = self.unsent.pop()
             request = reference()
@@ -661,6 +661,14 @@ class SNMPv3UsmManager(Generic[T]):
                 with self.activeLock:
                     if request.trySend(engineID):
                         heapq.heappush(self.active, reference)
+                        return True
+
+        return False
+
+    # Call this with self.lock held
+    def sendAll(self, engineID: bytes) -> None:
+        while self.sendNext(engineID):
+            pass
 
     def processResponse(self,
         request: Request,
@@ -674,6 +682,10 @@ class SNMPv3UsmManager(Generic[T]):
                 self.engineID = engineID
                 self.updateState()
                 self.sendAll(engineID)
+            elif self.unsent:
+                # Something else has to probe, now that this request is done
+                assert self.engineID is not None
+                self.sendNext(self.engineID)
 
             return True
 
-- 
2.43.0


From 2e071c80a38848c006ac548a4301fa4fbe87d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 30/31] fix: let a request close while its thread holds a lock

---
 snmp/message/v1.py                  | 3 ++-
 snmp/message/v2c.py                 | 3 ++-
 snmp/message/v3.py                  | 3 ++-
 snmp/security/usm/implementation.py | 4 +++-
 snmp/security/usm/users.py          | 6 +++++-
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/snmp/message/v1.py b/snmp/message/v1.py
index 3c31139..4633ff3 100644
--- a/snmp/message/v1.py
+++ b/snmp/message/v1.py
@@ -40,7 +40,8 @@ class SNMPv1MessageProcessor(MessageProcessor[Message, PDU]):
     VERSION = ProtocolVersion.SNMPv1
 
     def __init__(self) -> None:
-        self.cacheLock = threading.Lock()
+        # A request may be garbage-collected by a thread that holds this lock
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/message/v2c.py b/snmp/message/v2c.py
index 192ec5a..e35fa42 100644
--- a/snmp/message/v2c.py
+++ b/snmp/message/v2c.py
@@ -42,7 +42,8 @@ class SNMPv2cMessageProcessor(MessageProcessor[Message, AnyPDU]):
     VERSION = ProtocolVersion.SNMPv2c
 
     def __init__(self) -> None:
-        self.cacheLock = threading.Lock()
+        # A request may be garbage-collected by a thread that holds this lock
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/message/v3.py b/snmp/message/v3.py
index 129ce3e..d67d6da 100644
--- a/snmp/message/v3.py
+++ b/snmp/message/v3.py
@@ -485,7 +485,8 @@ class SNMPv3MessageProcessor(MessageProcessor[SNMPv3Message, AnyPDU]):
     def __init__(self, msgMaxSize: int) -> None:
         self.msgMaxSize = msgMaxSize
 
-        self.cacheLock = threading.Lock()
+        # A request may be garbage-collected by a thread that holds this lock
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 84068b5..002cea1 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -40,7 +40,9 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
 
     def __init__(self) -> None:
         self.timeLock = threading.Lock()
-        self.userLock = threading.Lock()
+
+        # A request may be garbage-collected by a thread that holds this lock
+        self.userLock = threading.RLock()
 
         self.timekeeper = TimeKeeper()
         self.users = UserRegistry()
diff --git a/snmp/security/usm/users.py b/snmp/security/usm/users.py
index 8cd1cba..8ff593e 100644
--- a/snmp/security/usm/users.py
+++ b/snmp/security/usm/users.py
@@ -155,7 +155,7 @@ class UserRegistry:
 
         config.addUser(userName, credentials, defaultSecurityLevel, default)
 
-        for engineID, engine in self.engines.items():
+        for engineID, engine in list(self.engines.items()):
             if engine.namespace == namespace:
                 engine.addUser(engineID, userName, credentials)
 
@@ -171,6 +171,10 @@ class UserRegistry:
         else:
             assigned = peer.assign(namespace)
 
+            # The garbage collector may have released it in the meantime
+            if assigned:
+                self.engines[engineID] = peer
+
         return assigned
 
     def release(self, engineID: bytes, namespace: str) -> bool:
-- 
2.43.0


From 33c5cabf32df227de8f971f699323bf6a9d2f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 31/31] fix: keep listening after a spurious wake-up of the
 portable multiplexor's control socket

---
 snmp/transport/generic/udp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 2846996..a59a823 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -49,7 +49,11 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                     assert self.r is not None
                     assert self.w is not None
                     if fd == self.r.fileno():
-                        data, addr = self.r.recvfrom(len(STOPMSG))
+                        try:
+                            data, addr = self.r.recvfrom(len(STOPMSG))
+                        except (BlockingIOError, ConnectionError):
+                            continue
+
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
                     try:
-- 
2.43.0

