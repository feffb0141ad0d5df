"""Drivers over the public objects of the library, in symbolic and concrete mode."""
from pyvc.harness import *

KINDS = ["unary", "client_stream", "server_stream", "bidi_stream"]
PROTOS = ["connect", "grpc", "grpc-web"]
TIMEOUT_HEADER = {"connect": "connect-timeout-ms", "grpc": "grpc-timeout", "grpc-web": "grpc-timeout"}


class Raw:
    """A codec by name."""

    def __init__(self, name="proto"):
        self._n = name

    def name(self):
        return self._n


class Named:
    """A compression by name."""

    def __init__(self, name="gzip"):
        self._n = name

    def name(self):
        return self._n


class Msg_:
    pass


def method(kind="unary", level="UNKNOWN", name="M", service="p.S"):
    from connectrpc.method import IdempotencyLevel, MethodInfo

    return MethodInfo(name=name, service_name=service, input=Msg_, output=Msg_, idempotency_level=IdempotencyLevel[level])


def client_protocol(h, proto):
    from connectrpc._protocol_connect import ConnectClientProtocol
    from connectrpc._protocol_grpc import GRPCClientProtocol, GRPCWebClientProtocol

    return h.new({"connect": ConnectClientProtocol, "grpc": GRPCClientProtocol, "grpc-web": GRPCWebClientProtocol}[proto])


def server_protocol(h, proto):
    from connectrpc._protocol_connect import ConnectServerProtocol
    from connectrpc._protocol_grpc import GRPCServerProtocol, GRPCWebServerProtocol

    return h.new({"connect": ConnectServerProtocol, "grpc": GRPCServerProtocol, "grpc-web": GRPCWebServerProtocol}[proto])


def client_context(h, proto, timeout_ms=None, user_headers=None, stream=False, codec=None, accept="", comp=None, m=None, http_method="POST"):
    p = client_protocol(h, proto)
    return h.call(p.create_request_context, method=m or method(), url="http://h.example", http_method=http_method, user_headers=user_headers,
                  timeout_ms=timeout_ms, codec=codec or Raw(), stream=stream, accept_compression=accept, send_compression=comp)


def server_context(h, proto, headers, m=None, http_method="POST"):
    from connectrpc.request import Headers

    p = server_protocol(h, proto)
    return h.call(p.create_request_context, m or method(), http_method, "http", h.new(Headers, headers))


class Spy:
    """An interceptor that keeps the contexts it sees and does not go on."""

    def __init__(self):
        self.seen = []

    async def intercept_unary(self, call_next, request, ctx):
        self.seen.append(ctx)

    async def intercept_client_stream(self, call_next, request, ctx):
        self.seen.append(ctx)

    async def intercept_server_stream(self, call_next, request, ctx):
        self.seen.append(ctx)
        return
        yield

    async def intercept_bidi_stream(self, call_next, request, ctx):
        self.seen.append(ctx)
        return
        yield

    def intercept_unary_sync(self, call_next, request, ctx):
        self.seen.append(ctx)

    def intercept_client_stream_sync(self, call_next, request, ctx):
        self.seen.append(ctx)

    def intercept_server_stream_sync(self, call_next, request, ctx):
        self.seen.append(ctx)
        return iter(())

    def intercept_bidi_stream_sync(self, call_next, request, ctx):
        self.seen.append(ctx)
        return iter(())


class NoHTTP:
    """An HTTP client that must not be used."""


def make_client(h, mode, proto="connect", **kw):
    from connectrpc.client import ConnectClient, ConnectClientSync
    from connectrpc.protocol import ProtocolType

    p = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpc-web": ProtocolType.GRPC_WEB}[proto]
    kw.setdefault("codec", Raw())
    kw.setdefault("http_client", NoHTTP())
    kw.setdefault("send_compression", None)
    kw.setdefault("accept_compression", [])
    return h.new(ConnectClient if mode == "async" else ConnectClientSync, "http://h.example", protocol=p, **kw)


def execute(h, cl, mode, kind, kw):
    """Run a call to its end: the list of responses."""
    r = h.call(getattr(cl, "execute_" + kind), **kw)
    if mode == "async":
        if kind in ("unary", "client_stream"):
            return [h.drive(r)]

        async def drain():
            return [x async for x in r]
        return h.drive(drain())
    return [r] if kind in ("unary", "client_stream") else list(r)
