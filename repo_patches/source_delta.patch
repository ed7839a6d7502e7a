From 34c163f798765fe4846475504ccae3bb3e7ae734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 01/38] fix: do not end a cancelled ASGI stream with a success
 terminal

---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..0c6dfba 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -455,7 +455,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            # Record the error so the response is not ended as a success below.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From fdcfaaaec57b2d3ddab20a0427e7c95ccd30ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 02/38] fix: ignore data after the end message of a response
 stream

---
 src/connectrpc/_envelope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..ca388ff 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,13 +38,15 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._ended = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
         self._buffer.extend(data)
         return self._read_messages()
 
     def _read_messages(self) -> Iterator[_RES]:
-        while self._buffer:
+        # Nothing after the end message is part of the stream.
+        while self._buffer and not self._ended:
             if self._next_message_length is not None:
                 if len(self._buffer) < self._next_message_length + 5:
                     return
@@ -73,6 +75,7 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
+                    self._ended = True
                     return
 
                 res = self._codec.decode(message_data, self._message_class)
-- 
2.43.0


From 084ef77092ed093965e99eab4806a683264f9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 03/38] fix: reject request streams that end inside a message

---
 src/connectrpc/_envelope.py     | 7 +++++++
 src/connectrpc/_server_async.py | 1 +
 src/connectrpc/_server_sync.py  | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index ca388ff..74b37ed 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -86,6 +86,13 @@ class EnvelopeReader(Generic[_RES]):
 
             self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
 
+    def check_complete(self) -> None:
+        """Raises if the stream ended in the middle of a message."""
+        if self._buffer and not self._ended:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, "protocol error: incomplete envelope"
+            )
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 0c6dfba..8b75582 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -575,6 +575,7 @@ async def _request_stream(
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
                 await sleep(0)
+        reader.check_complete()
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..aa5147b 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -575,6 +575,7 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    reader.check_complete()
 
 
 def _response_stream(
-- 
2.43.0


From 640b3c7bc2b4195a0a6d1c51e1c35a57a7676174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 04/38] fix: report truncated response streams as errors

---
 src/connectrpc/_protocol_connect.py | 10 ++++++++++
 src/connectrpc/_protocol_grpc.py    |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..44d10a7 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -330,3 +330,13 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def handle_response_complete(
+        self,
+        response: pyqwest.Response | pyqwest.SyncResponse,
+        e: ConnectError | None = None,
+    ) -> None:
+        if not self._ended:
+            raise e or ConnectError(
+                Code.INTERNAL, "protocol error: missing end stream message"
+            )
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..11408d0 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -368,6 +368,8 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
                 grpc_status, Code.UNKNOWN
             )
             raise ConnectError(connect_code, urllib.parse.unquote(message))
+        if e is None:
+            self.check_complete()
 
 
 class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
-- 
2.43.0


From a7791d9312722d20dd98436673d795a8d1400e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 05/38] fix: enforce read_max_bytes on GET requests

---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 8b75582..e115d20 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index aa5147b..b0638fc 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -387,6 +387,12 @@ class ConnectWSGIApplication(ABC):
                     )
                 message = compression.decompress(message)
 
+            if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
             if not codec:
-- 
2.43.0


From 10aeb3fffdd5644ec3cfee01af2c5015f155de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 06/38] fix: apply one-shot interceptor iterables to every
 endpoint of an ASGI application

---
 src/connectrpc/_server_async.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index e115d20..3cc8763 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -533,10 +533,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
     def _resolve_endpoints(self, service: _SVC) -> Mapping[str, Endpoint]:
         resolved_endpoints = self._endpoints(service)
         if self._interceptors:
+            # Resolve once since interceptors may be a one-shot iterable.
+            interceptors = resolve_interceptors(self._interceptors)
             resolved_endpoints = {
-                path: _apply_interceptors(
-                    endpoint, resolve_interceptors(self._interceptors)
-                )
+                path: _apply_interceptors(endpoint, interceptors)
                 for path, endpoint in resolved_endpoints.items()
             }
         return resolved_endpoints
-- 
2.43.0


From 870a7a6ea1662bf98d314a8daac2a973aedde09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 07/38] fix: accept WSGI environs without PATH_INFO or
 SCRIPT_NAME

---
 src/connectrpc/_server_sync.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index b0638fc..ee92efc 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -194,11 +194,12 @@ class ConnectWSGIApplication(ABC):
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
         try:
-            path = environ["PATH_INFO"]
+            # WSGI servers may omit these when they are empty.
+            path = environ.get("PATH_INFO", "")
             if not path:
                 path = "/"
             endpoint = self._endpoints.get(path)
-            if not endpoint and environ["SCRIPT_NAME"] == self.path:
+            if not endpoint and environ.get("SCRIPT_NAME", "") == self.path:
                 # The application was mounted at the service's path so we reconstruct
                 # the full URL.
                 endpoint = self._endpoints.get(self.path + path)
-- 
2.43.0


From 37d8dbf5e7ee18ea6f319d1664734d3d9399793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 08/38] fix: do not decompress empty unary request bodies on
 WSGI

---
 src/connectrpc/_server_sync.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index ee92efc..b1d5f7c 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -319,13 +319,14 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                try:
-                    req_body = compression.decompress(req_body)
-                except Exception as e:
-                    raise ConnectError(
-                        Code.INVALID_ARGUMENT,
-                        f"Failed to decompress request body: {e!s}",
-                    ) from e
+                if req_body:  # Don't decompress empty body
+                    try:
+                        req_body = compression.decompress(req_body)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT,
+                            f"Failed to decompress request body: {e!s}",
+                        ) from e
 
             if (
                 self._read_max_bytes is not None
@@ -386,7 +387,8 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                if message:  # Don't decompress empty messages
+                    message = compression.decompress(message)
 
             if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
                 raise ConnectError(
-- 
2.43.0


From c4fd17648abbb7a16e0594dbfb661d52bc4eb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 09/38] fix: malformed grpc-status-details-bin on a reset
 stream raises a ConnectError

---
 src/connectrpc/_protocol_grpc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 11408d0..898a31e 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -359,7 +359,12 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
         if grpc_status != "0":
             message = trailers.get("grpc-message", "")
             if grpc_status_details := trailers.get("grpc-status-details-bin"):
-                status = Status.from_binary(b64decode(grpc_status_details + "==="))
+                try:
+                    status = Status.from_binary(b64decode(grpc_status_details + "==="))
+                except ValueError as err:
+                    raise e or ConnectError(
+                        Code.INTERNAL, "invalid grpc-status-details-bin trailer"
+                    ) from err
                 connect_code = code or _grpc_status_to_connect.get(
                     str(status.code), Code.UNKNOWN
                 )
-- 
2.43.0


From f8fa5a2adaa7e926aa5491ec010daaf0bf81fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 10/38] fix: map stream resets of unary Connect calls like
 those of streams

---
 src/connectrpc/_client_async.py | 2 ++
 src/connectrpc/_client_sync.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..3ccb13f 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -342,6 +342,8 @@ class ConnectClient:
         except CancelledError as e:
             raise ConnectError(Code.CANCELED, "Request was cancelled") from e
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     async def _send_request_client_stream(
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..30db8aa 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -337,6 +337,8 @@ class ConnectClientSync:
         except ConnectError:
             raise
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     def _send_request_client_stream(
-- 
2.43.0


From 92dad62e97b8288764eb5e9e59eea9ed73460aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 11/38] fix: reject malformed timeout headers

---
 src/connectrpc/_protocol_connect.py |  7 +++----
 src/connectrpc/_protocol_grpc.py    | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 44d10a7..5bd9ab9 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -106,12 +106,11 @@ class ConnectServerProtocol:
                     Code.INVALID_ARGUMENT,
                     f"Invalid timeout header: '{timeout_header} has >10 digits",
                 )
-            try:
-                timeout_ms = int(timeout_header)
-            except ValueError as e:
+            if not (timeout_header.isascii() and timeout_header.isdigit()):
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, f"Invalid timeout header: '{timeout_header}'"
-                ) from e
+                )
+            timeout_ms = int(timeout_header)
         else:
             timeout_ms = None
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 898a31e..75d5eb7 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -124,18 +124,17 @@ class GRPCWebServerProtocol(GRPCServerProtocol):
 def _parse_timeout(timeout: str) -> int:
     # We normalize to int milliseconds matching connect's timeout header.
     value_to_ms = _lookup_timeout_unit(timeout[-1])
-    try:
-        value = int(timeout[:-1])
-    except ValueError as e:
+    digits = timeout[:-1]
+    if not (digits.isascii() and digits.isdigit()):
         msg = f"protocol error: invalid timeout '{timeout}'"
-        raise ValueError(msg) from e
+        raise ValueError(msg)
 
     # timeout must be ASCII string of at most 8 digits
-    if value > 99999999:
+    if len(digits) > 8:
         msg = f"protocol error: timeout '{timeout}' is too long"
         raise ValueError(msg)
 
-    return int(value * value_to_ms)
+    return int(int(digits) * value_to_ms)
 
 
 def _lookup_timeout_unit(unit: str) -> float:
-- 
2.43.0


From a46fe888fabed385f1b540f67170ac1825cec8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 12/38] fix: refuse malformed base64 in GET requests instead of
 dropping characters

---
 src/connectrpc/_protocol_connect.py | 8 ++++++++
 src/connectrpc/_server_async.py     | 9 ++++++---
 src/connectrpc/_server_sync.py      | 4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 5bd9ab9..5324dcf 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import base64
 import json
 import struct
 from http import HTTPStatus
@@ -71,6 +72,13 @@ def codec_name_from_content_type(content_type: str, *, stream: bool) -> str:
     return content_type
 
 
+def decode_query_base64(value: str) -> bytes:
+    # Padding is optional. Without validation, invalid characters would be dropped.
+    value = value.rstrip("=")
+    value += "=" * (-len(value) % 4)
+    return base64.b64decode(value, altchars=b"-_", validate=True)
+
+
 class ConnectServerProtocol:
     def create_request_context(
         self,
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 3cc8763..5d9417e 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import base64
 import contextlib
 import functools
 import inspect
@@ -23,7 +22,11 @@ from ._interceptor_async import (
     resolve_interceptors,
 )
 from ._protocol import ConnectWireError, HTTPException, ServerProtocol
-from ._protocol_connect import CONNECT_UNARY_CONTENT_TYPE_PREFIX, ConnectServerProtocol
+from ._protocol_connect import (
+    CONNECT_UNARY_CONTENT_TYPE_PREFIX,
+    ConnectServerProtocol,
+    decode_query_base64,
+)
 from ._protocol_server import negotiate_server_protocol
 from ._server_shared import (
     EndpointBidiStream,
@@ -308,7 +311,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         if is_base64:
             try:
-                message = base64.urlsafe_b64decode(message + "===")
+                message = decode_query_base64(message)
             except Exception as e:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index b1d5f7c..90d3602 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import base64
 import functools
 import traceback
 from abc import ABC, abstractmethod
@@ -27,6 +26,7 @@ from ._protocol_connect import (
     CONNECT_UNARY_CONTENT_TYPE_PREFIX,
     ConnectServerProtocol,
     codec_name_from_content_type,
+    decode_query_base64,
 )
 from ._protocol_server import negotiate_server_protocol
 from ._server_shared import (
@@ -370,7 +370,7 @@ class ConnectWSGIApplication(ABC):
 
             if "base64" in params and params["base64"][0] == "1":
                 try:
-                    message = base64.urlsafe_b64decode(message + "===")
+                    message = decode_query_base64(message)
                 except Exception as e:
                     raise ConnectError(
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
-- 
2.43.0


From 2e0300f009397ba7d75fcf4617eaa33887e73677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 13/38] fix: refuse GET requests to streaming methods

---
 src/connectrpc/_server_async.py | 3 +++
 src/connectrpc/_server_sync.py  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 5d9417e..b5a3266 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -206,6 +206,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
             is_unary = isinstance(endpoint, EndpointUnary)
+            if http_method != "POST" and not is_unary:
+                # Only unary methods can be called with GET.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
             if http_method == "GET":
                 query_string = scope.get("query_string", b"").decode("utf-8")
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 90d3602..29c9123 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -229,6 +229,10 @@ class ConnectWSGIApplication(ABC):
                 endpoint.method, http_method, http_scheme, headers, client_address
             )
 
+            if http_method != "POST" and not isinstance(endpoint, EndpointUnarySync):
+                # Only unary methods can be called with GET.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
+
             if isinstance(endpoint, EndpointUnarySync) and isinstance(
                 protocol, ConnectServerProtocol
             ):
-- 
2.43.0


From eeb6e7c04cda26fcaa32110f0dc791217e5814b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 14/38] fix: honour a declared content length of zero on WSGI

---
 src/connectrpc/_server_sync.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 29c9123..f3aaa9d 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -308,9 +308,8 @@ class ConnectWSGIApplication(ABC):
 
         try:
             content_length = environ.get("CONTENT_LENGTH")
-            content_length = 0 if not content_length else int(content_length)
-            if content_length > 0:
-                req_body = _read_body_with_content_length(environ, content_length)
+            if content_length:
+                req_body = _read_body_with_content_length(environ, int(content_length))
             else:
                 req_body = b"".join(_read_body(environ))
 
-- 
2.43.0


From 7093aabc460d3e85f13a518a6bb62a3bb08b5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 15/38] fix: check the protocol version of GET requests

---
 src/connectrpc/_protocol_connect.py | 9 +++++++++
 src/connectrpc/_server_async.py     | 2 ++
 src/connectrpc/_server_sync.py      | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 5324dcf..cbc9630 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -72,6 +72,15 @@ def codec_name_from_content_type(content_type: str, *, stream: bool) -> str:
     return content_type
 
 
+def check_query_protocol_version(params: Mapping[str, list[str]]) -> None:
+    # As with the header, we don't require the parameter.
+    if (version := params.get("connect", ["v1"])[0]) != "v1":
+        raise ConnectError(
+            Code.INVALID_ARGUMENT,
+            f"connect protocol version must be 'v1': got '{version}'",
+        )
+
+
 def decode_query_base64(value: str) -> bytes:
     # Padding is optional. Without validation, invalid characters would be dropped.
     value = value.rstrip("=")
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b5a3266..343b9d2 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -25,6 +25,7 @@ from ._protocol import ConnectWireError, HTTPException, ServerProtocol
 from ._protocol_connect import (
     CONNECT_UNARY_CONTENT_TYPE_PREFIX,
     ConnectServerProtocol,
+    check_query_protocol_version,
     decode_query_base64,
 )
 from ._protocol_server import negotiate_server_protocol
@@ -302,6 +303,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
     ) -> _REQ:
         """Handle GET request with query parameters."""
         # Validation
+        check_query_protocol_version(params)
         if "message" not in params:
             raise ConnectError(
                 Code.INVALID_ARGUMENT,
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index f3aaa9d..bb00717 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -25,6 +25,7 @@ from ._protocol import ConnectWireError, HTTPException, ServerProtocol
 from ._protocol_connect import (
     CONNECT_UNARY_CONTENT_TYPE_PREFIX,
     ConnectServerProtocol,
+    check_query_protocol_version,
     codec_name_from_content_type,
     decode_query_base64,
 )
@@ -363,6 +364,7 @@ class ConnectWSGIApplication(ABC):
             query_string = environ.get("QUERY_STRING", "")
             params = parse_qs(query_string, keep_blank_values=True)
 
+            check_query_protocol_version(params)
             if "message" not in params:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT,
-- 
2.43.0


From 75de544fd7c64ca6a2daad6ae43aac37c6143771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 16/38] fix: keep the bytes of plain messages in GET requests

---
 src/connectrpc/_server_async.py | 9 ++++++---
 src/connectrpc/_server_sync.py  | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 343b9d2..f9182aa 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -212,8 +212,11 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
             if http_method == "GET":
-                query_string = scope.get("query_string", b"").decode("utf-8")
-                query_params = parse_qs(query_string, keep_blank_values=True)
+                # The message can be any bytes, latin-1 keeps them as they are.
+                query_string = scope.get("query_string", b"").decode("latin-1")
+                query_params = parse_qs(
+                    query_string, keep_blank_values=True, encoding="latin-1"
+                )
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
                 query_params = _UNSET_QUERY_PARAMS
@@ -322,7 +325,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
                 ) from e
         else:
-            message = message.encode("utf-8")
+            message = message.encode("latin-1")
 
         # Handle compression
         compression_name = params.get("compression", ["identity"])[0]
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index bb00717..b03b440 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -362,7 +362,8 @@ class ConnectWSGIApplication(ABC):
         """Handle GET request with query parameters."""
         try:
             query_string = environ.get("QUERY_STRING", "")
-            params = parse_qs(query_string, keep_blank_values=True)
+            # The message can be any bytes, latin-1 keeps them as they are.
+            params = parse_qs(query_string, keep_blank_values=True, encoding="latin-1")
 
             check_query_protocol_version(params)
             if "message" not in params:
@@ -381,7 +382,7 @@ class ConnectWSGIApplication(ABC):
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
                     ) from e
             else:
-                message = message.encode("utf-8")
+                message = message.encode("latin-1")
 
             # Handle compression if specified
             if "compression" in params:
-- 
2.43.0


From 35d4b72fb168b5cade5e197df14f14b2949b9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 17/38] fix: report truncated zstd data instead of returning
 part of it

---
 src/connectrpc/compression/zstd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/compression/zstd.py b/src/connectrpc/compression/zstd.py
index 3923ebb..3b02bc9 100644
--- a/src/connectrpc/compression/zstd.py
+++ b/src/connectrpc/compression/zstd.py
@@ -27,5 +27,13 @@ class ZstdCompression(Compression):
     def decompress(self, data: bytes | bytearray | memoryview) -> bytes:
         # Support clients sending frames without length by using
         # stream API.
-        with zstandard.ZstdDecompressor().stream_reader(data) as reader:
-            return reader.read()
+        dctx = zstandard.ZstdDecompressor()
+        res = bytearray()
+        while data:
+            frame = dctx.decompressobj()
+            res += frame.decompress(data)
+            if not frame.eof:
+                msg = "truncated zstd data"
+                raise ValueError(msg)
+            data = frame.unused_data
+        return bytes(res)
-- 
2.43.0


From b5ffb9752633956e070fa0eec6ee84a85c22d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 18/38] fix: send timeouts too long for the protocol as its
 longest legal one

---
 src/connectrpc/_protocol_connect.py | 3 ++-
 src/connectrpc/_protocol_grpc.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index cbc9630..53ecad0 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -239,7 +239,8 @@ class ConnectClientProtocol:
             f"{CONNECT_STREAMING_CONTENT_TYPE_PREFIX if stream else CONNECT_UNARY_CONTENT_TYPE_PREFIX}{codec.name()}"
         )
         if timeout_ms is not None:
-            headers["connect-timeout-ms"] = str(timeout_ms)
+            # The protocol limits timeouts to 10 digits, servers reject longer ones.
+            headers["connect-timeout-ms"] = str(min(timeout_ms, 9_999_999_999))
 
         server_address = url_to_server_address(url)
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 75d5eb7..9e3a551 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -424,7 +424,7 @@ def _serialize_timeout(timeout_ms: int) -> str:
     else:
         size, unit = 60 * 60 * 1000, "H"
 
-    return f"{timeout_ms // size}{unit}"
+    return f"{min(timeout_ms // size, 99_999_999)}{unit}"
 
 
 _connect_status_to_grpc = {
-- 
2.43.0


From 5661dde5fedd9c335c700cbc6b4ef476e72e9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 19/38] fix: close response streams together with the metadata
 interceptors around them

---
 src/connectrpc/_interceptor_async.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 34c8f61..ed44311 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Generic, Protocol, TypeVar, runtime_checkable
 
 if TYPE_CHECKING:
@@ -153,6 +154,18 @@ Interceptor = (
 """An interceptor to apply to an asynchronous RPC server or client."""
 
 
+@asynccontextmanager
+async def _closing(responses: AsyncIterator[RES]) -> AsyncIterator[AsyncIterator[RES]]:
+    """Closes a response stream, which may be abandoned before its end, together
+    with the interceptor iterating it rather than when it is garbage collected."""
+    try:
+        yield responses
+    finally:
+        aclose = getattr(responses, "aclose", None)
+        if aclose is not None:
+            await aclose()
+
+
 class MetadataInterceptorInvoker(Generic[T]):
     _delegate: MetadataInterceptor[T]
 
@@ -200,8 +213,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            async with _closing(call_next(request, ctx)) as responses:
+                async for response in responses:
+                    yield response
         except Exception as e:
             error = e
             raise
@@ -217,8 +231,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            async with _closing(call_next(request, ctx)) as responses:
+                async for response in responses:
+                    yield response
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From 0457345f98e22cb58969cf373cc4dc7b05e8113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 20/38] fix: answer membership and repr on the view of all
 headers with duplicates

---
 src/connectrpc/_headers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 092d8d7..cc61bb6 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -146,3 +146,9 @@ class _AllItemsView(ItemsView[str, str]):
         if self._extra:
             size += sum(len(v) for v in self._extra.values())
         return size
+
+    def __contains__(self, item: object) -> bool:
+        return any(item == i for i in self)
+
+    def __repr__(self) -> str:
+        return f"{self.__class__.__name__}({list(self)!r})"
-- 
2.43.0


From bda8de64badd133871f77ac84daed22bdc9d2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 21/38] fix: do not take an application without endpoints for
 one without lifespan support

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index f9182aa..ab2bf76 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -168,7 +168,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                         await send({"type": "lifespan.shutdown.complete"})
                         return None
 
-        if not self._resolved_endpoints:
+        if self._resolved_endpoints is None:
             if inspect.isasyncgen(self._service):
                 msg = "ASGI server does not support lifespan but async generator passed for service. Enable lifespan support."
                 raise RuntimeError(msg)
-- 
2.43.0


From 7709e180a40b40b37d9ded611819decc2aec1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 22/38] fix: send the terminal status when an error message is
 not valid Unicode

---
 src/connectrpc/_protocol_grpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 9e3a551..81cab02 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -162,14 +162,16 @@ class GRPCEnvelopeWriter(EnvelopeWriter):
         if error:
             status = _connect_status_to_grpc[error.code]
             trailers["grpc-status"] = status
-            message = error.message
+            # A message that is not valid Unicode must not keep the status from being sent.
+            error_message = error.message.encode("utf-8", "replace").decode("utf-8")
+            message = error_message
             if message:
                 message = urllib.parse.quote(message, safe="")
                 trailers["grpc-message"] = message
             if error.details:
                 grpc_status = Status(
                     code=int(status),
-                    message=error.message,
+                    message=error_message,
                     details=[d._any for d in error.details],  # noqa: SLF001
                 )
                 grpc_status_bin = (
-- 
2.43.0


From 5797e15864a85df0c15ad3ba75060e3ca94a4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 23/38] fix: report the server address of IPv6 hosts and of
 addresses with a path

---
 src/connectrpc/_protocol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..63f4b99 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -284,7 +284,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # The colons within the brackets of an IPv6 address do not start a port.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
@@ -301,4 +302,6 @@ def url_to_server_address(address: str) -> str | None:
         scheme = "http"
         address = address[len("http://") :]
 
-    return host_to_server_address(address, scheme)
+    # The URL may have a path services are mounted under.
+    host = address.partition("/")[0]
+    return host_to_server_address(host, scheme)
-- 
2.43.0


From 8fcb9314b3f2f6c82afdd4b88547569cbebafff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 24/38] fix: do not let a malformed peer address fail a call
 with telemetry

---
 .../connectrpc_otel/_interceptor.py           | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..da5c944 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -46,6 +46,16 @@ Token: TypeAlias = tuple[AbstractContextManager, Span, float, dict[str, Attribut
 _DEFAULT_TEXTMAP_SETTER = cast("Setter[MutableMapping[str, str]]", default_setter)
 
 
+def _split_address(address: str) -> tuple[str, int | None]:
+    """Splits an address from its port. Addresses come from peers, a malformed one
+    must not affect the RPC."""
+    addr, sep, port = address.rpartition(":")
+    if not sep:
+        return address, None
+    valid = port.isascii() and port.isdigit() and len(port) <= 5
+    return addr, int(port) if valid else None
+
+
 class OpenTelemetryInterceptor:
     """Interceptor to generate telemetry for RPC server and client requests."""
 
@@ -109,9 +119,10 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
+            addr, port = _split_address(sa)
             shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            if port is not None:
+                shared_attrs[SERVER_PORT] = port
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -162,9 +173,10 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
+            addr, port = _split_address(ca)
             attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            if port is not None:
+                attrs[CLIENT_PORT] = port
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
-- 
2.43.0


From ea598398eb64b407f6f5d3db83e964a8bb165e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 25/38] fix: propagate the client span, not its parent, to the
 server

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index da5c944..e634b8a 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -161,8 +161,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -181,6 +179,11 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # The server's span is a child of this span, so it must be current.
+                self._propagator.inject(
+                    ctx.request_headers, setter=_DEFAULT_TEXTMAP_SETTER
+                )
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From d39f4c145ee679137fc286135bc106377bcaf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 26/38] fix: do not report a cancelled call as successful to
 metadata interceptors

---
 src/connectrpc/_interceptor_async.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index ed44311..e1c799a 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -1,8 +1,12 @@
 from __future__ import annotations
 
+from asyncio import CancelledError
 from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Generic, Protocol, TypeVar, runtime_checkable
 
+from .code import Code
+from .errors import ConnectError
+
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Awaitable, Callable, Iterable, Sequence
 
@@ -182,6 +186,10 @@ class MetadataInterceptorInvoker(Generic[T]):
         error: Exception | None = None
         try:
             return await call_next(request, ctx)
+        except CancelledError:
+            # Not an Exception, but the RPC did not succeed either.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
@@ -198,6 +206,10 @@ class MetadataInterceptorInvoker(Generic[T]):
         error: Exception | None = None
         try:
             return await call_next(request, ctx)
+        except CancelledError:
+            # Not an Exception, but the RPC did not succeed either.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
@@ -216,6 +228,10 @@ class MetadataInterceptorInvoker(Generic[T]):
             async with _closing(call_next(request, ctx)) as responses:
                 async for response in responses:
                     yield response
+        except CancelledError:
+            # Not an Exception, but the RPC did not succeed either.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
@@ -234,6 +250,10 @@ class MetadataInterceptorInvoker(Generic[T]):
             async with _closing(call_next(request, ctx)) as responses:
                 async for response in responses:
                     yield response
+        except CancelledError:
+            # Not an Exception, but the RPC did not succeed either.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From 22a46f5df05010eb44bece4b6c15a8c6d94531e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 27/38] fix: do not let stale import hooks of the instrumentor
 patch classes

---
 .../connectrpc_otel/_instrumentor.py           | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..d615aba 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -23,6 +23,11 @@ R = TypeVar("R")
 
 
 class ConnectInstrumentor(BaseInstrumentor):
+    # A post-import hook cannot be removed, one registered before the import of its
+    # module runs even after un-instrumenting, and once per registration.
+    _active = False
+    _patched: frozenset[str] = frozenset()
+
     def instrumentation_dependencies(self) -> Collection[str]:
         return _instruments
 
@@ -34,10 +39,13 @@ class ConnectInstrumentor(BaseInstrumentor):
             "TracerProvider | None", kwargs.get("tracer_provider")
         )
 
+        self._active = True
         register_post_import_hook(self._patch_client, "connectrpc.client")
         register_post_import_hook(self._patch_server, "connectrpc.server")
 
     def _uninstrument(self, **kwargs: object) -> None:
+        self._active = False
+        self._patched = frozenset()
         # TODO: Remove sys.modules check after
         # https://github.com/open-telemetry/opentelemetry-python-contrib/pull/4321
         if "connectrpc.client" in sys.modules:
@@ -47,7 +55,15 @@ class ConnectInstrumentor(BaseInstrumentor):
             unwrap("connectrpc.server.ConnectASGIApplication", "__init__")
             unwrap("connectrpc.server.ConnectWSGIApplication", "__init__")
 
+    def _should_patch(self, module: ModuleType) -> bool:
+        if not self._active or module.__name__ in self._patched:
+            return False
+        self._patched |= {module.__name__}
+        return True
+
     def _patch_client(self, module: ModuleType) -> None:
+        if not self._should_patch(module):
+            return
         wrap_function_wrapper(
             module, "ConnectClient.__init__", partial(self._init_wrapper, client=True)
         )
@@ -58,6 +74,8 @@ class ConnectInstrumentor(BaseInstrumentor):
         )
 
     def _patch_server(self, module: ModuleType) -> None:
+        if not self._should_patch(module):
+            return
         wrap_function_wrapper(
             module,
             "ConnectASGIApplication.__init__",
-- 
2.43.0


From 53f7ecb75fe41807d553fee934fd964377a79f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 28/38] fix: keep interceptors passed as an iterator when
 instrumented

---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index d615aba..8346524 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -103,10 +103,11 @@ class ConnectInstrumentor(BaseInstrumentor):
             "interceptors"
         )
         interceptors = [] if interceptors is None else [*interceptors]
+        # The iterable may be an iterator, which has been consumed now.
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From 6fe4422e9ddf1f28f5c7fbbc22189b2809fd40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 29/38] fix: import messages of the same file from its
 directory

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 5b76df1..4f90df4 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -505,7 +505,8 @@ def _message_ident(method: DescMethod, message: DescMessage, options: Options) -
     if message.file != method.parent.file:
         mod = Module(_module_name(message.file.name))
     else:
-        mod = Module(f".{_module_name(message.file.name.split('/')[-1])}")
+        # Relative to the generation root, the import is made relative when printed.
+        mod = Module(f".{_module_name(message.file.name)}")
     return mod.ident(name)
 
 
-- 
2.43.0


From bdc575ce8b0c9340f32d567c3600385713fab2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 30/38] fix: generate valid classes for a service without
 methods

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 4f90df4..8e4526b 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -117,6 +117,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
             with f.scope(
@@ -231,6 +233,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
@@ -297,6 +301,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "Sync(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -394,6 +400,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
-- 
2.43.0


From a4be22f0a76559ebd6992c7170bce1319eaf7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 31/38] fix: keep generated class names apart from imported and
 each other's names

---
 .../protoc_gen_connectrpc/__init__.py         | 57 +++++++++++++++----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 8e4526b..7935758 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -112,7 +112,7 @@ def _generate_file(f: File, desc: DescFile, options: Options) -> None:
 
 
 def _generate_async_stubs(f: File, service: DescService, options: Options) -> None:
-    service_name = escape_identifier(service.name)
+    service_name = _class_ident(f, service, "")
     default_server_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
@@ -148,8 +148,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "ASGIApplication(",
+        _class_ident(f, service, "ASGIApplication"),
+        "(",
         _CONNECT_ASGI_APPLICATION,
         "[",
         service_name,
@@ -230,7 +230,9 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
+    with f.scope(
+        "class ", _class_ident(f, service, "Client"), "(", _CONNECT_CLIENT, "):"
+    ):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
         elif not service.methods:
@@ -296,11 +298,11 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
 
 
 def _generate_sync_stubs(f: File, service: DescService, options: Options) -> None:
-    service_name = f"{escape_identifier(service.name)}"
+    service_name = _class_ident(f, service, "Sync")
     default_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
-    with f.scope("class ", service_name, "Sync(", _PROTOCOL, "):"):
+    with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
         if not service.methods:
             f.print("pass")
         for method in service.methods:
@@ -331,14 +333,14 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "WSGIApplication(",
+        _class_ident(f, service, "WSGIApplication"),
+        "(",
         _CONNECT_WSGI_APPLICATION,
         "):",
     ):
         with f.scope("def __init__("):
             f.print("self,")
-            f.print("service: ", service_name, "Sync,")
+            f.print("service: ", service_name, ",")
             f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR_SYNC, "] = (),")
             f.print("read_max_bytes: int | None = None,")
             f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
@@ -397,7 +399,13 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
+    with f.scope(
+        "class ",
+        _class_ident(f, service, "ClientSync"),
+        "(",
+        _CONNECT_CLIENT_SYNC,
+        "):",
+    ):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
         elif not service.methods:
@@ -544,6 +552,35 @@ def _sync_signature(
     return (request_type, response_type)
 
 
+# Builtins used by the generated code at runtime.
+_RESERVED_CLASS_NAMES = frozenset({"property", "super"})
+
+
+def _class_ident(f: File, service: DescService, suffix: str) -> Ident:
+    """Returns the identifier of a class generated for the service.
+
+    An identifier of the file itself takes precedence over imported ones, which are
+    aliased if they have the same name.
+    """
+    names: dict[tuple[str, str], str] = {}
+    taken = set(_RESERVED_CLASS_NAMES)
+    for sfx in (
+        "",
+        "Sync",
+        "Client",
+        "ClientSync",
+        "ASGIApplication",
+        "WSGIApplication",
+    ):
+        for svc in service.file.services:
+            name = f"{escape_identifier(svc.name)}{sfx}"
+            while name in taken:
+                name += "_"
+            taken.add(name)
+            names[svc.name, sfx] = name
+    return f.ident(names[service.name, suffix])
+
+
 def _endpoint_type(method: DescMethod) -> str:
     match method.method_kind:
         case "unary":
-- 
2.43.0


From d2f65298e97cc05816c93513589592f6f56c9607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 32/38] fix: keep generated method names distinct and off
 client attributes

---
 .../protoc_gen_connectrpc/__init__.py         | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 7935758..90898a2 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -605,8 +605,30 @@ def _client_execute_method(method: DescMethod) -> str:
             return "execute_bidi_stream"
 
 
+_CLIENT_ATTRIBUTES = frozenset(
+    {
+        "close",
+        "execute_unary",
+        "execute_client_stream",
+        "execute_server_stream",
+        "execute_bidi_stream",
+    }
+)
+
+
 def _method_local_name(method: DescMethod) -> str:
-    return escape_identifier(_pascal_to_snake_case(method.name))
+    names: dict[str, str] = {}
+    taken = set(_CLIENT_ATTRIBUTES)
+    for m in method.parent.methods:
+        name = escape_identifier(_pascal_to_snake_case(m.name))
+        if name.startswith("_"):
+            # Would be mangled, special or clash with private attributes of clients.
+            name = f"pb_{name}"
+        while name in taken:
+            name += "_"
+        taken.add(name)
+        names[m.name] = name
+    return names[method.name]
 
 
 def _method_url(desc: DescMethod) -> str:
-- 
2.43.0


From 82b8547e17e01b5c344a71ec6b1fd2ad290d76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 33/38] fix: keep message types apart from parameters and
 builtins in generated code

---
 .../protoc_gen_connectrpc/__init__.py         | 92 +++++++++++++------
 1 file changed, 65 insertions(+), 27 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 90898a2..385580f 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -156,9 +156,10 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         "]):",
     ):
         with f.scope("def __init__("):
-            f.print("self,")
+            f.print(f.ident("self"), ",")
             f.print(
-                "service: ",
+                f.ident("service"),
+                ": ",
                 service_name,
                 " | ",
                 _ASYNC_GENERATOR,
@@ -167,11 +168,21 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                 "],",
             )
             f.print("*,")
-            f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR, "] = (),")
-            f.print("read_max_bytes: int | None = None,")
-            f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
             f.print(
-                "codecs: ",
+                f.ident("interceptors"), ": ", _ITERABLE, "[", _INTERCEPTOR, "] = (),"
+            )
+            f.print(f.ident("read_max_bytes"), ": int | None = None,")
+            f.print(
+                f.ident("compressions"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _COMPRESSION,
+                "] | None = None,",
+            )
+            f.print(
+                f.ident("codecs"),
+                ": ",
                 _ITERABLE,
                 "[",
                 _CODEC,
@@ -180,9 +191,9 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                 ",",
             )
         with f.scope(") -> None:"):
-            with f.scope("super().__init__("):
+            with f.scope(f.ident("super"), "().__init__("):
                 f.print("service=service,")
-                with f.scope("endpoints=lambda svc: {"):
+                with f.scope("endpoints=lambda ", f.ident("svc"), ": {"):
                     for method in service.methods:
                         with f.scope(
                             f'"{_method_url(method)}": ',
@@ -221,7 +232,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                 f.print("codecs=codecs,")
             f.print(")")
         f.print()
-        f.print("@property")
+        f.print("@", f.ident("property"))
         with f.scope("def path(self) -> str:"):
             with f.doc(
                 "Returns the URL path to mount the application to when serving multiple applications."
@@ -242,20 +253,23 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
             def_prefix, request_type, response_type = _async_signature(method, options)
 
             with f.scope(def_prefix, "def ", _method_local_name(method), "("):
-                f.print("self,")
-                f.print("request: ", *request_type, ",")
+                f.print(f.ident("self"), ",")
+                # Parameters are identifiers of the file too so that messages imported
+                # under the same name are aliased.
+                f.print(f.ident("request"), ": ", *request_type, ",")
                 f.print("*,")
                 f.print(
-                    "headers: ",
+                    f.ident("headers"),
+                    ": ",
                     _HEADERS,
                     " | ",
                     _MAPPING,
                     "[str, str]",
                     " | None = None, ",
                 )
-                f.print("timeout_ms: int | None = None,")
+                f.print(f.ident("timeout_ms"), ": int | None = None,")
                 if _supports_get(method):
-                    f.print("use_get: bool = False,")
+                    f.print(f.ident("use_get"), ": bool = False,")
             with f.scope(") -> ", *response_type, ":"):
                 await_return = (
                     "await "
@@ -339,16 +353,37 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         "):",
     ):
         with f.scope("def __init__("):
-            f.print("self,")
-            f.print("service: ", service_name, ",")
-            f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR_SYNC, "] = (),")
-            f.print("read_max_bytes: int | None = None,")
-            f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
+            f.print(f.ident("self"), ",")
+            f.print(f.ident("service"), ": ", service_name, ",")
+            f.print(
+                f.ident("interceptors"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _INTERCEPTOR_SYNC,
+                "] = (),",
+            )
+            f.print(f.ident("read_max_bytes"), ": int | None = None,")
             f.print(
-                "codecs: ", _ITERABLE, "[", _CODEC, "] | None = ", default_codecs, ","
+                f.ident("compressions"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _COMPRESSION,
+                "] | None = None,",
+            )
+            f.print(
+                f.ident("codecs"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _CODEC,
+                "] | None = ",
+                default_codecs,
+                ",",
             )
         with f.scope(") -> None:"):
-            with f.scope("super().__init__("):
+            with f.scope(f.ident("super"), "().__init__("):
                 with f.scope("endpoints={"):
                     for method in service.methods:
                         with f.scope(
@@ -390,7 +425,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
                 f.print("codecs=codecs,")
             f.print(")")
         f.print()
-        f.print("@property")
+        f.print("@", f.ident("property"))
         with f.scope("def path(self) -> str:"):
             with f.doc(
                 "Returns the URL path to mount the application to when serving multiple applications."
@@ -415,20 +450,23 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
             request_type, response_type = _sync_signature(method, options)
 
             with f.scope("def ", _method_local_name(method), "("):
-                f.print("self,")
-                f.print("request: ", *request_type, ",")
+                f.print(f.ident("self"), ",")
+                # Parameters are identifiers of the file too so that messages imported
+                # under the same name are aliased.
+                f.print(f.ident("request"), ": ", *request_type, ",")
                 f.print("*,")
                 f.print(
-                    "headers: ",
+                    f.ident("headers"),
+                    ": ",
                     _HEADERS,
                     " | ",
                     _MAPPING,
                     "[str, str]",
                     " | None = None, ",
                 )
-                f.print("timeout_ms: int | None = None,")
+                f.print(f.ident("timeout_ms"), ": int | None = None,")
                 if _supports_get(method):
-                    f.print("use_get: bool = False,")
+                    f.print(f.ident("use_get"), ": bool = False,")
             with f.scope(") -> ", *response_type, ":"):
                 with f.scope("return ", "self.", _client_execute_method(method), "("):
                     f.print("request=request,")
-- 
2.43.0


From ceb0ab5406d8f9aceca6a38c62ceb8a45aa6ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 34/38] fix: do not end an asynchronous streaming response as a
 success when the handler raises a BaseException

---
 src/connectrpc/_server_async.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index ab2bf76..3d1076b 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -477,6 +477,11 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             raise error from e
         except Exception as e:
             error = e
+        except BaseException as e:
+            # For example SystemExit: it goes on to the server, and the response
+            # must not be ended as a success below.
+            error = ConnectError(Code.UNKNOWN, str(e))
+            raise
         finally:
             end_message = writer.end(
                 ctx.response_trailers,
-- 
2.43.0


From 9fe667e9c4d7e425744de41ab42e61c217785699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 35/38] fix: do not cancel the caller's own work when the
 deadline of a response stream passes

---
 src/connectrpc/_asyncio_timeout.py |  9 +++++
 src/connectrpc/_client_async.py    | 55 +++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/connectrpc/_asyncio_timeout.py b/src/connectrpc/_asyncio_timeout.py
index 3c68bdc..4b8b253 100644
--- a/src/connectrpc/_asyncio_timeout.py
+++ b/src/connectrpc/_asyncio_timeout.py
@@ -164,3 +164,12 @@ def timeout(delay: float | None) -> Timeout:
     """
     loop = events.get_running_loop()
     return Timeout(loop.time() + delay if delay is not None else None)
+
+
+def timeout_at(when: float | None) -> Timeout:
+    """Schedule the timeout at absolute time.
+
+    Like timeout() but argument gives absolute time in the same clock system
+    as loop.time().
+    """
+    return Timeout(when)
diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 3ccb13f..0ed612b 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,6 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
+from contextlib import AsyncExitStack
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -31,12 +32,12 @@ from .errors import ConnectError
 from .protocol import ProtocolType
 
 if sys.version_info >= (3, 11):
-    from asyncio import timeout as asyncio_timeout
+    from asyncio import timeout_at as asyncio_timeout_at
 else:
-    from ._asyncio_timeout import timeout as asyncio_timeout
+    from ._asyncio_timeout import timeout_at as asyncio_timeout_at
 
 if TYPE_CHECKING:
-    from collections.abc import AsyncIterator, Iterable, Mapping
+    from collections.abc import AsyncIterator, Awaitable, Iterable, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -54,6 +55,7 @@ else:
 
 REQ = TypeVar("REQ")
 RES = TypeVar("RES")
+T = TypeVar("T")
 
 
 class _ExecuteUnary(Protocol[REQ, RES]):
@@ -364,9 +366,9 @@ class ConnectClient:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
-            timeout_s = timeout_ms / 1000.0
+            deadline = asyncio.get_running_loop().time() + timeout_ms / 1000.0
         else:
-            timeout_s = None
+            deadline = None
 
         reader: EnvelopeReader | None = None
         resp: Response | None = None
@@ -375,12 +377,15 @@ class ConnectClient:
                 request, self._codec, self._send_compression
             )
 
-            async with (
-                asyncio_timeout(timeout_s),
-                self._http_client.stream(
-                    "POST", url, headers=request_headers, content=request_data
-                ) as resp,
-            ):
+            async with AsyncExitStack() as stack:
+                resp = await _wait_until(
+                    deadline,
+                    stack.enter_async_context(
+                        self._http_client.stream(
+                            "POST", url, headers=request_headers, content=request_data
+                        )
+                    ),
+                )
                 handle_response_headers(resp.headers)
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
@@ -395,21 +400,22 @@ class ConnectClient:
                         compression,
                         self._read_max_bytes,
                     )
-                    async for chunk in resp.content:
+                    chunks = aiter(resp.content)
+                    while (
+                        chunk := await _wait_until(deadline, anext(chunks, None))
+                    ) is not None:
                         for message in reader.feed(bytes(chunk)):
                             yield message
                             # Check for cancellation each message. While this seems heavyweight,
                             # conformance tests require it.
-                            await sleep(0)
+                            await _wait_until(deadline, sleep(0))
                     reader.handle_response_complete(resp)
                 else:
-                    content = bytearray()
-                    async for chunk in resp.content:
-                        content.extend(chunk)
+                    content = await _wait_until(deadline, _read_content(resp))
                     fres = FullResponse(
                         status=resp.status,
                         headers=resp.headers,
-                        content=bytes(content),
+                        content=content,
                         trailers=resp.trailers,
                     )
                     raise ConnectWireError.from_response(fres).to_exception()
@@ -429,6 +435,21 @@ class ConnectClient:
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
 
+async def _wait_until(deadline: float | None, awaitable: Awaitable[T]) -> T:
+    # The timeout of a response stream must only be active while we wait ourselves,
+    # not while suspended at a yield, where it would cancel the caller's own work.
+    async with asyncio_timeout_at(deadline):
+        return await awaitable
+    raise TimeoutError
+
+
+async def _read_content(resp: Response) -> bytes:
+    content = bytearray()
+    async for chunk in resp.content:
+        content.extend(chunk)
+    return bytes(content)
+
+
 async def _streaming_request_content(
     msgs: AsyncIterator[Any], codec: Codec, compression: Compression | None
 ) -> AsyncIterator[bytes]:
-- 
2.43.0


From 39c93834de2f36f358565082e98bb3143731b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 36/38] fix: close the handler's stream when a WSGI response is
 closed before it is iterated

---
 src/connectrpc/_server_sync.py | 46 ++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index b03b440..b3e3800 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -5,7 +5,7 @@ import traceback
 from abc import ABC, abstractmethod
 from dataclasses import replace
 from http import HTTPStatus
-from typing import TYPE_CHECKING, TypeVar
+from typing import TYPE_CHECKING, Any, TypeVar
 from urllib.parse import parse_qs
 
 from . import _server_shared
@@ -42,7 +42,14 @@ from .request import Headers, RequestContext
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Callable, Iterable, Iterator, Mapping, Sequence
+    from collections.abc import (
+        Callable,
+        Generator,
+        Iterable,
+        Iterator,
+        Mapping,
+        Sequence,
+    )
     from io import BytesIO
 
     if sys.version_info >= (3, 11):
@@ -499,8 +506,11 @@ class ConnectWSGIApplication(ABC):
             # run at all until the iterator is consumed, meaning start_response wouldn't have
             # been called in time. So we return the response stream as a separate generator
             # function. This means some duplication of error handling.
-            return _response_stream(
-                first_response, environ, response_stream, writer, send_trailers, ctx
+            return _ResponseBody(
+                _response_stream(
+                    first_response, environ, response_stream, writer, send_trailers, ctx
+                ),
+                response_stream,
             )
         except Exception as e:
             # Exception before any response message was returned. An error after the first
@@ -600,7 +610,7 @@ def _response_stream(
     writer: EnvelopeWriter,
     send_trailers: Callable[[list[tuple[str, str]]], None] | None,
     ctx: RequestContext,
-) -> Iterable[bytes]:
+) -> Generator[bytes]:
     error: Exception | None = None
     try:
         body = writer.write(first_response)
@@ -621,6 +631,32 @@ def _response_stream(
     )
 
 
+class _ResponseBody:
+    """The body of a streaming response, closing the handler's stream with it.
+
+    Closing a generator that has not started does not run any of its code, so the
+    handler's stream would be left open if the response is closed before it is iterated.
+    """
+
+    def __init__(
+        self, chunks: Generator[bytes], response_stream: Iterator[Any]
+    ) -> None:
+        self._chunks = chunks
+        self._response_stream = response_stream
+
+    def __iter__(self) -> Iterator[bytes]:
+        return self
+
+    def __next__(self) -> bytes:
+        return next(self._chunks)
+
+    def close(self) -> None:
+        self._chunks.close()
+        close = getattr(self._response_stream, "close", None)
+        if close is not None:
+            close()
+
+
 def _consume_single_request(stream: Iterator[_REQ]) -> _REQ:
     req = None
     for message in stream:
-- 
2.43.0


From 783d24f35e4b2b013ae3237aa0a1a633eb03a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:02 +0000
Subject: [PATCH 37/38] fix: release the response of a call that gets more than
 one message

The stream under a unary or client-streaming call was left suspended when a second
message arrived, so its HTTP response stayed open for as long as the error (whose
traceback refers to the stream) was kept.
---
 src/connectrpc/_client_async.py | 28 ++++++++++++++++++----------
 src/connectrpc/_client_sync.py  | 21 ++++++++++++---------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 0ed612b..53a4683 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,7 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
-from contextlib import AsyncExitStack
+from contextlib import AsyncExitStack, aclosing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -37,7 +37,13 @@ else:
     from ._asyncio_timeout import timeout_at as asyncio_timeout_at
 
 if TYPE_CHECKING:
-    from collections.abc import AsyncIterator, Awaitable, Iterable, Mapping
+    from collections.abc import (
+        AsyncGenerator,
+        AsyncIterator,
+        Awaitable,
+        Iterable,
+        Mapping,
+    )
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -362,7 +368,7 @@ class ConnectClient:
 
     async def _send_request_bidi_stream(
         self, request: AsyncIterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> AsyncIterator[RES]:
+    ) -> AsyncGenerator[RES, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -462,14 +468,16 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
     yield message
 
 
-async def _consume_single_response(stream: AsyncIterator[RES]) -> RES:
+async def _consume_single_response(stream: AsyncGenerator[RES, None]) -> RES:
     res = None
-    async for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # An error does not finish the stream, which would keep the response open.
+    async with aclosing(stream):
+        async for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 30db8aa..1bcf52e 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+from contextlib import closing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -29,7 +30,7 @@ from .protocol import ProtocolType
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Iterable, Iterator, Mapping
+    from collections.abc import Generator, Iterable, Iterator, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -353,7 +354,7 @@ class ConnectClientSync:
 
     def _send_request_bidi_stream(
         self, request: Iterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> Iterator[RES]:
+    ) -> Generator[RES]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -446,14 +447,16 @@ def _streaming_request_content(
         yield writer.write(msg)
 
 
-def _consume_single_response(stream: Iterator[RES]) -> RES:
+def _consume_single_response(stream: Generator[RES]) -> RES:
     res = None
-    for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # An error does not finish the stream, which would keep the response open.
+    with closing(stream):
+        for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
-- 
2.43.0


From ffd3a516df7759075599e2cf8d2db3c60f7d1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 38/38] fix: keep the code of an error whose details are
 malformed

A detail that is not an object of two strings, or whose value is not base64,
made the whole error UNAVAILABLE, whatever code or HTTP status it had. Such
details are ignored, as the ones without a type or value already are.
---
 src/connectrpc/_protocol.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index 63f4b99..7291e23 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -4,7 +4,7 @@ import json
 from base64 import b64decode, b64encode
 from dataclasses import dataclass
 from http import HTTPStatus
-from typing import TYPE_CHECKING, Protocol, TypeVar, cast
+from typing import TYPE_CHECKING, Protocol, TypeVar
 
 from protobuf import message_to_json_value
 from protobuf.wkt import Any
@@ -121,22 +121,29 @@ class ConnectWireError:
         else:
             code = _http_status_code_to_error.get(http_status, Code.UNKNOWN)
         message = data.get("message", "")
+        if not isinstance(message, str):
+            message = ""
         details: Sequence[ErrorDetail] = ()
-        details_json = cast("list[dict[str, str]] | None", data.get("details"))
-        if details_json:
+        details_json = data.get("details")
+        if details_json and isinstance(details_json, list):
             details = []
             for detail in details_json:
+                # Ignore malformed details
+                if not isinstance(detail, dict):
+                    continue
                 detail_type = detail.get("type")
                 detail_value = detail.get("value")
-                if detail_type is None or detail_value is None:
-                    # Ignore malformed details
+                if not isinstance(detail_type, str) or not isinstance(
+                    detail_value, str
+                ):
+                    continue
+                try:
+                    value = b64decode(detail_value + "===")
+                except ValueError:
                     continue
                 details.append(
                     ErrorDetail(
-                        Any(
-                            type_url="type.googleapis.com/" + detail_type,
-                            value=b64decode(detail_value + "==="),
-                        )
+                        Any(type_url="type.googleapis.com/" + detail_type, value=value)
                     )
                 )
         return ConnectWireError(code, message, details)
-- 
2.43.0

