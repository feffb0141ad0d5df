"""C04: the tables between codes, HTTP statuses and gRPC statuses."""
from pyvc.harness import *
from targets.world import *

HTTP = dict(CANCELED=499, UNKNOWN=500, INVALID_ARGUMENT=400, DEADLINE_EXCEEDED=504, NOT_FOUND=404, ALREADY_EXISTS=409,
            PERMISSION_DENIED=403, RESOURCE_EXHAUSTED=429, FAILED_PRECONDITION=400, ABORTED=409, OUT_OF_RANGE=400,
            UNIMPLEMENTED=501, INTERNAL=500, UNAVAILABLE=503, DATA_LOSS=500, UNAUTHENTICATED=401)
GRPC = ["OK", "CANCELED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
        "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE",
        "DATA_LOSS", "UNAUTHENTICATED"]
FROM_HTTP = {400: "INTERNAL", 401: "UNAUTHENTICATED", 403: "PERMISSION_DENIED", 404: "UNIMPLEMENTED", 429: "UNAVAILABLE",
             502: "UNAVAILABLE", 503: "UNAVAILABLE", 504: "UNAVAILABLE"}
WIRE = [n.lower() for n in HTTP]


def from_http(h, status):
    for s, c in FROM_HTTP.items():
        if h.test(h.eq(status, s)):
            return c
    return "UNKNOWN"


def failing(h, mode, code, text_):
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    if mode == "async":
        async def f(req, ctx):
            raise h.new(ConnectError, Code[code], text_)
        return f

    def g(req, ctx):
        raise h.new(ConnectError, Code[code], text_)
    return g


@target("C04", "http_status", replay=True)
def http_status(h):
    """A Connect unary handler that raises: the HTTP status."""
    mode = h.choice("mode", ["async", "sync"])
    code = h.choice("code", list(HTTP))
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "unary", failing(h, mode, code, h.str("message"))))])
    x = serve(h, mode, app, headers=[("content-type", "application/proto")])
    h.check("C04.http_status: one response starts", len(x.starts) == 1)
    h.check("C04.http_status: the status of the code", h.eq(x.status, HTTP[code]))


@target("C04", "http_status_other", replay=True)
def http_status_other(h):
    """Any other exception is unknown, so 500."""
    mode = h.choice("mode", ["async", "sync"])
    t = h.str("message")
    if mode == "async":
        async def f(req, ctx):
            raise ValueError(t)
    else:
        def f(req, ctx):
            raise ValueError(t)
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "unary", f))])
    x = serve(h, mode, app, headers=[("content-type", "application/proto")])
    h.check("C04.http_status_other: one response starts", len(x.starts) == 1)
    h.check("C04.http_status_other: 500", h.eq(x.status, 500))


@target("C04", "grpc_status", replay=True)
def grpc_status(h):
    mode = h.choice("mode", ["async", "sync"])
    code = h.choice("code", GRPC)
    if code == "OK":
        if mode == "async":
            async def f(req, ctx):
                return req
        else:
            def f(req, ctx):
                return req
    else:
        f = failing(h, mode, code, h.str("message"))
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "unary", f))])
    x = serve(h, mode, app, headers=[("content-type", "application/grpc+proto")], body=[frame(h, 0, b"x")])
    h.check("C04.grpc_status: HTTP 200", h.eq(x.status, 200))
    s = x.trailer(h, "grpc-status")
    h.check("C04.grpc_status: one status", len(s) == 1)
    h.check("C04.grpc_status: the number of the code", h.eq(s[0], str(GRPC.index(code))))


@target("C04", "client_grpc_status", replay=True)
def client_grpc_status(h):
    """Any status text, in trailers or, without a body, in headers."""
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    where = h.choice("where", ["trailers", "headers"])
    s = h.str("status")
    hs = [("content-type", "application/grpc+proto")]
    r = {"headers": hs, "body": frame(h, 0, b"x"), "trailers": [("grpc-status", s)]} if where == "trailers" else {"headers": hs + [("grpc-status", s)]}
    k, e, got, _ = exchange(h, mode, "grpc", "server_stream", r)
    if h.test(h.eq(s, "0")):
        h.check("C04.client_grpc_status: 0 is success", k == "ok")
        return
    h.check("C04.client_grpc_status: anything else is an error", k == "exc" and isinstance(e, ConnectError))
    for n in range(1, 17):
        if h.test(h.eq(s, str(n))):
            h.check("C04.client_grpc_status: the code of the number", e.code.name == GRPC[n])
            return
    h.check("C04.client_grpc_status: an unknown number is unknown", e.code.name == "UNKNOWN")


@target("C04", "client_http_status", replay=True)
def client_http_status(h):
    """A response that is not 200 and names no code."""
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", ["unary", "server_stream"])
    proto = h.choice("protocol", PROTOS)
    form = h.choice("body", ["none", "json", "no object", "foreign"])
    status = h.int("status", 100, 599)
    if h.test(h.eq(status, 200)):
        return
    body, ct = {"none": (b"", "text/html"), "json": (b'{"message": "m"}', "application/json"), "no object": (b"[1]", "application/json"), "foreign": (b"<p>", "application/json")}[form]
    k, e, got, _ = exchange(h, mode, proto, kind, {"status": status, "headers": [("content-type", ct)], "body": body})
    h.check("C04.client_http_status: an error", k == "exc" and isinstance(e, ConnectError))
    h.check("C04.client_http_status: the code of the status", e.code.name == from_http(h, status))


@target("C04", "client_named_code", replay=True)
def client_named_code(h):
    """A response that is not 200 and names a code."""
    import json

    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", ["unary", "server_stream"])
    status = h.choice("status", [400, 404, 500, 301, 201])
    c = h.str("code")
    if h.test(h.eq(c, "")):
        return
    body = h.call(h.call(json.dumps, h.dict([("code", c), ("message", "m")])).encode)
    k, e, got, _ = exchange(h, mode, "connect", kind, {"status": status, "headers": [("content-type", "application/json")], "body": body})
    h.check("C04.client_named_code: an error", k == "exc" and isinstance(e, ConnectError))
    for n in HTTP:
        if h.test(h.eq(c, n.lower())):
            h.check("C04.client_named_code: the code it names", e.code.name == n)
            return
    h.check("C04.client_named_code: an unknown name is unavailable", e.code.name == "UNAVAILABLE")


@target("C04", "end_named_code", replay=True)
def end_named_code(h):
    """The end of a Connect stream names a code."""
    import json

    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    c = h.str("code")
    if h.test(h.eq(c, "")):
        return
    text_ = h.call(h.call(json.dumps, h.dict([("error", h.dict([("code", c), ("message", "m")]))])).encode)
    body = frame(h, 2, text_)
    k, e, got, _ = exchange(h, mode, "connect", "server_stream", {"headers": [("content-type", "application/connect+proto")], "body": body})
    h.check("C04.end_named_code: an error", k == "exc" and isinstance(e, ConnectError))
    for n in HTTP:
        if h.test(h.eq(c, n.lower())):
            h.check("C04.end_named_code: the code it names", e.code.name == n)
            return
    h.check("C04.end_named_code: an unknown name is unknown", e.code.name == "UNKNOWN")
