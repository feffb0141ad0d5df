From a670b32cf59d5eb8fe7bde83197d7ce174e7aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 01/19] fix: apply read_max_bytes to Connect GET requests

Servers configured with read_max_bytes rejected oversized POST messages but
decoded GET messages (after decompression) of any size.
---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..6c159e3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..b884538 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -387,6 +387,12 @@ class ConnectWSGIApplication(ABC):
                     )
                 message = compression.decompress(message)
 
+            if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
             if not codec:
-- 
2.43.0


From 5595d8e83c2a160fcc75020513ff4a11a26782c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 02/19] fix: do not end a cancelled ASGI stream with a
 successful status

When a streaming RPC was cancelled while the handler was running, the
terminator was written with no error, so clients saw a success.
---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 6c159e3..ecd6bc3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -461,7 +461,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            # Record the error so the stream isn't ended with a successful status.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From ce2dc4ed7e601ca3c3f8f996e235780fafd84708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 03/19] fix: reject enveloped request bodies that end within a
 message

A truncated request stream was indistinguishable from a complete one, so the
handler processed a prefix of the client's messages as if it were everything.
---
 src/connectrpc/_envelope.py     | 7 +++++++
 src/connectrpc/_server_async.py | 1 +
 src/connectrpc/_server_sync.py  | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..f5dd5ec 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -91,6 +91,13 @@ class EnvelopeReader(Generic[_RES]):
         """
         return False
 
+    def check_complete(self, code: Code) -> None:
+        """Raises an error with the given code if the stream ended within a message."""
+        if self._buffer:
+            raise ConnectError(
+                code, "protocol error: stream ended with an incomplete message"
+            )
+
     def handle_response_complete(
         self, response: Response | SyncResponse, e: ConnectError | None = None
     ) -> None:
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index ecd6bc3..0a90009 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -581,6 +581,7 @@ async def _request_stream(
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
                 await sleep(0)
+        reader.check_complete(Code.INVALID_ARGUMENT)
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index b884538..ae1fc71 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -581,6 +581,7 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    reader.check_complete(Code.INVALID_ARGUMENT)
 
 
 def _response_stream(
-- 
2.43.0


From 68246d18678a17ce5940c0e64302f1e4b77b5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 04/19] fix: report truncated streaming responses as errors

A Connect response stream that ended without its end of stream message, or a
gRPC response whose last message was cut short, was reported as a success.
---
 src/connectrpc/_protocol_connect.py | 13 +++++++++++++
 src/connectrpc/_protocol_grpc.py    |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..b7030ec 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -25,6 +25,7 @@ if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import pyqwest
+    from pyqwest import Response, SyncResponse
 
     from ._codec import Codec
     from ._compression import Compression
@@ -314,12 +315,15 @@ class ConnectClientProtocol:
 
 
 class ConnectEnvelopeReader(EnvelopeReader[RES]):
+    _received_end_message = False
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
         end_stream = prefix_byte & 0b10 != 0
         if not end_stream:
             return False
+        self._received_end_message = True
         end_stream_message: dict = json.loads(message_data)
         metadata = end_stream_message.get("metadata")
         if metadata:
@@ -330,3 +334,12 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def handle_response_complete(
+        self, response: Response | SyncResponse, e: ConnectError | None = None
+    ) -> None:
+        # Without the end message, the response was cut short.
+        if not self._received_end_message:
+            raise e or ConnectError(
+                Code.INTERNAL, "protocol error: missing end of stream message"
+            )
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..3aa21ae 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -369,6 +369,10 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
             )
             raise ConnectError(connect_code, urllib.parse.unquote(message))
 
+        # A successful status doesn't make up for a message that was cut short.
+        if e is None:
+            self.check_complete(Code.INTERNAL)
+
 
 class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
     def __init__(
-- 
2.43.0


From 140d342831f77f7c3b5812f66e9b478f019d0e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 05/19] fix: ignore data after the end of stream message in any
 chunk

Frames after the end message were dropped when they arrived in the same chunk
but delivered as messages when they arrived in a later one.
---
 src/connectrpc/_envelope.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index f5dd5ec..e5f8c7b 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,9 +38,11 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._ended = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
-        self._buffer.extend(data)
+        if not self._ended:
+            self._buffer.extend(data)
         return self._read_messages()
 
     def _read_messages(self) -> Iterator[_RES]:
@@ -73,6 +75,10 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
+                    # Nothing may follow the end message, regardless of which
+                    # chunk it arrives in.
+                    self._ended = True
+                    self._buffer.clear()
                     return
 
                 res = self._codec.decode(message_data, self._message_class)
-- 
2.43.0


From 1fcc8063c9a13e667debb18a838bccfefcb037a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 06/19] fix: do not fail RPCs with telemetry when an address
 has no valid port

The OpenTelemetry interceptor raised for e.g. IPv6 addresses without a port or
base URLs with a path, failing the RPC it was observing.
---
 .../connectrpc_otel/_interceptor.py           | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..578fd2d 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -46,6 +46,19 @@ Token: TypeAlias = tuple[AbstractContextManager, Span, float, dict[str, Attribut
 _DEFAULT_TEXTMAP_SETTER = cast("Setter[MutableMapping[str, str]]", default_setter)
 
 
+def _set_address(
+    attrs: dict[str, AttributeValue], address_key: str, port_key: str, value: str
+) -> None:
+    # The address can come from a peer, e.g. the Host header, so must not be assumed to
+    # be valid.
+    address, _, port = value.rpartition(":")
+    try:
+        attrs[port_key] = int(port)
+        attrs[address_key] = address
+    except ValueError:
+        attrs[address_key] = value
+
+
 class OpenTelemetryInterceptor:
     """Interceptor to generate telemetry for RPC server and client requests."""
 
@@ -109,9 +122,7 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
-            shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            _set_address(shared_attrs, SERVER_ADDRESS, SERVER_PORT, sa)
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -162,9 +173,7 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
-            attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            _set_address(attrs, CLIENT_ADDRESS, CLIENT_PORT, ca)
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
-- 
2.43.0


From e94eac7af68f2d08e83118024de4f5d71ad82a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 07/19] fix: derive server_address correctly for IPv6 hosts and
 URLs with a path

RequestContext.server_address is documented as address:port, but contained the
URL path on the client and lacked the port for IPv6 hosts.
---
 src/connectrpc/_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..42bc28e 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -284,7 +284,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # The colons in an IPv6 address, which is within brackets, don't separate a port.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
@@ -301,4 +302,7 @@ def url_to_server_address(address: str) -> str | None:
         scheme = "http"
         address = address[len("http://") :]
 
+    # Only the authority is part of the server address, not any path prefix.
+    address = address.partition("/")[0]
+
     return host_to_server_address(address, scheme)
-- 
2.43.0


From b305a7e73ac622b387db8d9b4fb66ac93cba8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 08/19] fix: raise a ConnectError for a stream reset with
 malformed trailers

The error from parsing the trailers was raised in the exception handler, so
escaped the client as is.
---
 src/connectrpc/_client_async.py | 8 +++++++-
 src/connectrpc/_client_sync.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..c86d48e 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -422,7 +422,13 @@ class ConnectClient:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:  # noqa: S110
+                        # Malformed trailers, we still have the error from the reset.
+                        pass
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..8ff741a 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -431,7 +431,13 @@ class ConnectClientSync:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:  # noqa: S110
+                        # Malformed trailers, we still have the error from the reset.
+                        pass
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
-- 
2.43.0


From 396a66e3cedd354338d271aaf164db8fce939fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 09/19] fix: apply interceptors given as an iterator to all
 ASGI endpoints

The iterator was exhausted by the first endpoint, leaving all others without
interceptors.
---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 0a90009..07db754 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -110,7 +110,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         super().__init__()
         self._service = service
         self._endpoints = endpoints
-        self._interceptors = interceptors
+        # Iterated for each endpoint, so must not be a one-shot iterator.
+        self._interceptors = tuple(interceptors)
         self._resolved_endpoints = None
         self._read_max_bytes = read_max_bytes
         self._compressions = resolve_compressions(compressions)
-- 
2.43.0


From 56efa5a7b8bc3c861a694f51f7371c7b556d7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 10/19] fix: reject GET requests to streaming methods

A GET request reached the handler of a streaming method that is marked as free
of side effects. Streaming RPCs are only defined for POST.
---
 src/connectrpc/_server_async.py | 3 +++
 src/connectrpc/_server_sync.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 07db754..e6278a3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -187,6 +187,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 raise HTTPException(HTTPStatus.NOT_FOUND, [])
 
             http_method = scope["method"]
+            if http_method != "POST" and not isinstance(endpoint, EndpointUnary):
+                # Only unary methods can support other HTTP methods, i.e. GET.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
             http_scheme = scope.get("scheme", "http")
             headers = _process_headers(scope.get("headers", ()))
             client_address = f"{ca[0]}:{ca[1]}" if (ca := scope.get("client")) else None
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index ae1fc71..d642074 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -207,6 +207,9 @@ class ConnectWSGIApplication(ABC):
                 raise HTTPException(HTTPStatus.NOT_FOUND, [])
 
             http_method = environ["REQUEST_METHOD"]
+            if http_method != "POST" and not isinstance(endpoint, EndpointUnarySync):
+                # Only unary methods can support other HTTP methods, i.e. GET.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
             http_scheme = environ.get("wsgi.url_scheme", "http")
             headers = _process_headers(environ)
             if ra := environ.get("REMOTE_ADDR"):
-- 
2.43.0


From dfde8fa4e9f678d86612ff57146ce2b5dc221846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 11/19] fix: map stream resets of unary Connect calls to their
 codes

Streaming and gRPC calls already did; unary Connect calls reported every
reset as unavailable.
---
 src/connectrpc/_client_async.py | 2 ++
 src/connectrpc/_client_sync.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index c86d48e..b6f0ee0 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -342,6 +342,8 @@ class ConnectClient:
         except CancelledError as e:
             raise ConnectError(Code.CANCELED, "Request was cancelled") from e
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     async def _send_request_client_stream(
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 8ff741a..4894522 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -337,6 +337,8 @@ class ConnectClientSync:
         except ConnectError:
             raise
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     def _send_request_client_stream(
-- 
2.43.0


From 6a109a702d0850bbe6f5be794c677acfad79a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 12/19] fix: support membership tests and repr of
 Headers.allitems with duplicates

The view for headers with duplicate values inherited implementations that
need a mapping it does not have, so they raised AttributeError.
---
 src/connectrpc/_headers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 092d8d7..264936a 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -141,6 +141,12 @@ class _AllItemsView(ItemsView[str, str]):
                 for vv in self._extra.get(key, ()):
                     yield (key, vv)
 
+    def __contains__(self, item: object) -> bool:
+        return any(v == item for v in self)
+
+    def __repr__(self) -> str:
+        return f"{type(self).__name__}({list(self)!r})"
+
     def __len__(self) -> int:
         size = len(self._store)
         if self._extra:
-- 
2.43.0


From 3c9bfe7212bcbe80bc402bab4b06a452d9fc5aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 13/19] fix: do not let user trailers replace the message and
 details of a gRPC status

The grpc-message and grpc-status-details-bin trailers of a handler were sent
with an error that has no message or details, so clients read the status in
them instead of the one of the RPC.
---
 src/connectrpc/_protocol_grpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 3aa21ae..b75edea 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -160,6 +160,9 @@ def _lookup_timeout_unit(unit: str) -> float:
 class GRPCEnvelopeWriter(EnvelopeWriter):
     def end(self, user_trailers: Headers, error: ConnectWireError | None) -> Headers:
         trailers = Headers(list(user_trailers.allitems()))
+        # The status is the one of the RPC, whatever trailers the user set.
+        for name in ("grpc-status", "grpc-message", "grpc-status-details-bin"):
+            trailers.pop(name, None)
         if error:
             status = _connect_status_to_grpc[error.code]
             trailers["grpc-status"] = status
-- 
2.43.0


From 1db329f3b37b5fb9cac948ea0a0049726da27022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 14/19] fix: generate valid code for services without methods

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 5b76df1..d007dd7 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -117,6 +117,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
             with f.scope(
@@ -229,6 +231,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     f.print()
     f.print()
     with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
+        if not service.methods:
+            f.print("pass")
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
 
@@ -297,6 +301,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "Sync(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -392,6 +398,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     f.print()
     f.print()
     with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
+        if not service.methods:
+            f.print("pass")
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
 
-- 
2.43.0


From 6a2ff79176b28ebff5bf0e245ce672897c78cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 15/19] fix: import google.protobuf messages from the directory
 of their proto file

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index d007dd7..ac80b14 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -513,7 +513,7 @@ def _message_ident(method: DescMethod, message: DescMessage, options: Options) -
     if message.file != method.parent.file:
         mod = Module(_module_name(message.file.name))
     else:
-        mod = Module(f".{_module_name(message.file.name.split('/')[-1])}")
+        mod = Module(f".{_module_name(message.file.name)}")
     return mod.ident(name)
 
 
-- 
2.43.0


From 1a96d20f88f945ccf4e65d183dcdabd1c42aa896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 16/19] fix: keep interceptors given as an iterator when they
 include telemetry

---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..a127be4 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -85,10 +85,11 @@ class ConnectInstrumentor(BaseInstrumentor):
             "interceptors"
         )
         interceptors = [] if interceptors is None else [*interceptors]
+        # May have been an iterator that is now consumed.
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From da5e5bd347ca6dbfe286a6e74faec6ad43ebc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 17/19] fix: propagate the client span of an RPC to the server

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index 578fd2d..8de5d14 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -161,8 +161,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -178,6 +176,10 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # Must be within the span for the server to continue from it.
+                carrier = ctx.request_headers
+                self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From 679f490223de8a4f2a3c7ba9a29166ff88519f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 18/19] fix: keep the error of a response when closing it fails
 too

---
 src/connectrpc/_client_async.py | 27 +++++++++++++++++++--------
 src/connectrpc/_client_sync.py  |  9 +++++++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index b6f0ee0..4e4f97d 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -368,6 +368,7 @@ class ConnectClient:
         else:
             timeout_s = None
 
+        stream_error: Exception | None = None
         reader: EnvelopeReader | None = None
         resp: Response | None = None
         try:
@@ -395,13 +396,17 @@ class ConnectClient:
                         compression,
                         self._read_max_bytes,
                     )
-                    async for chunk in resp.content:
-                        for message in reader.feed(bytes(chunk)):
-                            yield message
-                            # Check for cancellation each message. While this seems heavyweight,
-                            # conformance tests require it.
-                            await sleep(0)
-                    reader.handle_response_complete(resp)
+                    try:
+                        async for chunk in resp.content:
+                            for message in reader.feed(bytes(chunk)):
+                                yield message
+                                # Check for cancellation each message. While this seems heavyweight,
+                                # conformance tests require it.
+                                await sleep(0)
+                        reader.handle_response_complete(resp)
+                    except ConnectError as e:
+                        stream_error = e
+                        raise
                 else:
                     content = bytearray()
                     async for chunk in resp.content:
@@ -412,7 +417,8 @@ class ConnectClient:
                         content=bytes(content),
                         trailers=resp.trailers,
                     )
-                    raise ConnectWireError.from_response(fres).to_exception()
+                    stream_error = ConnectWireError.from_response(fres).to_exception()
+                    raise stream_error
         except (TimeoutError, asyncio.TimeoutError) as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
         except ConnectError:
@@ -420,6 +426,11 @@ class ConnectClient:
         except CancelledError as e:
             raise ConnectError(Code.CANCELED, "Request was cancelled") from e
         except Exception as e:
+            # An exception raised while closing the response overwrites any raised by
+            # our own stream handling, which should be prioritized.
+            if stream_error is not None:
+                raise stream_error from None
+
             if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
                 # It is possible for a reset to come with trailers which should
                 # be used.
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 4894522..63d26ed 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -405,7 +405,11 @@ class ConnectClientSync:
                     if (t := ctx.timeout_ms) is not None and t <= 0:
                         raise TimeoutError
 
-                    reader.handle_response_complete(resp)
+                    try:
+                        reader.handle_response_complete(resp)
+                    except ConnectError as e:
+                        stream_error = e
+                        raise
                 else:
                     content = bytearray()
                     for chunk in resp.content:
@@ -416,7 +420,8 @@ class ConnectClientSync:
                         content=bytes(content),
                         trailers=resp.trailers,
                     )
-                    raise ConnectWireError.from_response(fres).to_exception()
+                    stream_error = ConnectWireError.from_response(fres).to_exception()
+                    raise stream_error
         except TimeoutError as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
         except ConnectError:
-- 
2.43.0


From 15e46ac1c448711b2c74d8ed21227d1cec016d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 19/19] fix: do not decompress empty request bodies on WSGI

---
 src/connectrpc/_server_sync.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index d642074..eac965b 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -321,13 +321,14 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                try:
-                    req_body = compression.decompress(req_body)
-                except Exception as e:
-                    raise ConnectError(
-                        Code.INVALID_ARGUMENT,
-                        f"Failed to decompress request body: {e!s}",
-                    ) from e
+                if req_body:  # Don't decompress empty body
+                    try:
+                        req_body = compression.decompress(req_body)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT,
+                            f"Failed to decompress request body: {e!s}",
+                        ) from e
 
             if (
                 self._read_max_bytes is not None
@@ -388,7 +389,8 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                if message:  # Don't decompress empty messages
+                    message = compression.decompress(message)
 
             if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
                 raise ConnectError(
-- 
2.43.0

