"""C03: errors of handlers, end to end."""
from pyvc.harness import *
from targets.world import *

SPLIT = {"client": 2, "server": 2, "protocol": 3, "kind": 4}


def handler(h, mode, kind, before, error):
    """Yields the messages of `before` (server streaming), then raises."""
    if mode == "async":
        if kind == "unary":
            async def fn(request, ctx):
                raise error()
        elif kind == "client_stream":
            async def fn(request, ctx):
                async for _ in request:
                    pass
                raise error()
        else:
            async def fn(request, ctx):
                for m in before:
                    yield m
                raise error()
    else:
        if kind == "unary":
            def fn(request, ctx):
                raise error()
        elif kind == "client_stream":
            def fn(request, ctx):
                for _ in request:
                    pass
                raise error()
        else:
            def fn(request, ctx):
                for m in before:
                    yield m
                raise error()
    return fn


def call(h, error):
    """A call of any kind to a handler that fails: what the caller gets."""
    cmode = h.choice("client", ["async", "sync"])
    smode = h.choice("server", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    streams = kind in ("server_stream", "bidi_stream")
    before = [message(h, "before") for _ in range(h.choice("messages before", [0, 2]))] if streams else []
    comps = [compression(h, "gzip", False)] if h.choice("compressed", [False, True]) else []
    app = make_app(h, smode, [("/p.S/M", endpoint(h, smode, kind, handler(h, smode, kind, before, error)))], compressions=comps)
    k, e, got, wire = exchange(h, cmode, proto, kind, linked(h, smode, app, comps), accept_compression=comps, timeout_ms=None)
    h.check("C03: the messages sent before are delivered", len(got) == len(before) and h.test(h.eq(got, before)))
    return k, e


def failed(h, k, e):
    from connectrpc.errors import ConnectError

    return h.check("C03: the call fails with an RPC error", k == "exc" and isinstance(e, ConnectError))


def detail(h, name):
    """A detail of any type and content, as (type name, bytes, the detail)."""
    from connectrpc.errors import ErrorDetail
    from protobuf.wkt import Any

    t, b = h.field(name + "_type"), h.bytes(name)
    return t, b, h.new(ErrorDetail, Any(type_url="type.googleapis.com/" + t, value=b))


def same_details(h, e, want):
    got = list(e.details)
    if not h.check("C03: as many details", len(got) == len(want)):
        return
    for d, (t, b) in zip(got, want):
        h.check("C03: the same details, in order", h.and_(h.eq(h.call(getattr, d, "type_name"), t), h.eq(h.call(getattr, d, "message_bytes"), b)))


@target("C03", "codes", replay=True, split=SPLIT, unroll=40)
def codes(h):
    """Every code, with any message."""
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    code = h.choice("code", list(Code))
    t = h.str("message")
    k, e = call(h, lambda: h.new(ConnectError, code, t))
    if not failed(h, k, e):
        return
    h.check("C03: the same code", e.code == code)
    h.check("C03: the same message", h.eq(e.message, t))
    h.check("C03: no details", len(list(e.details)) == 0)


@target("C03", "details", replay=True, split=SPLIT, unroll=40)
def details(h):
    """Any message and details, with the details given in any way."""
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError
    from protobuf.wkt import StringValue

    t = h.str("message")
    ds = [detail(h, f"detail{i}") for i in range(2)]
    want = [d[:2] for d in ds]
    items = [d[2] for d in ds]
    how = h.choice("given", ["details", "a message", "messages in Any", "an iterator"])
    if how == "a message":
        m = StringValue(value="v")
        items.insert(1, m)
        want.insert(1, ("google.protobuf.StringValue", m.to_binary()))
    elif how == "messages in Any":
        items = [d._any for d in items]

    def error():
        return h.new(ConnectError, Code.ABORTED, t, iter(items) if how == "an iterator" else h.list(*items))
    k, e = call(h, error)
    if not failed(h, k, e):
        return
    h.check("C03: the same code", e.code == Code.ABORTED)
    h.check("C03: the same message", h.eq(e.message, t))
    same_details(h, e, want)


@target("C03", "other", replay=True, split=SPLIT, unroll=40)
def other(h):
    """Any other exception is unknown."""
    from connectrpc.code import Code

    t = h.str("message")
    c = h.choice("class", [ValueError, KeyError, HandlerError, OSError, TimeoutError])
    k, e = call(h, lambda: c(t))
    if failed(h, k, e):
        h.check("C03: any other exception is unknown", e.code == Code.UNKNOWN)
