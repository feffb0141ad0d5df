"""C02: the read limit bounds every message that is delivered, and only larger ones fail."""
from pyvc.harness import *
from targets.world import *

if SYMBOLIC:
    from targets.c01 import READERS, FrameSpec, bit, buffer_invariant, make_comp, make_reader, END_BIT
    from targets.c15 import Input, Rx
else:
    READERS, Rx, Input = range(4), None, None


def size_of(h, b):
    return h.len(b)


@target("C02", "reader", split={"reader": 4, "compression": 2}, time_limit=300, branch_ms=400)
def reader(h):
    """Any stream, in any pieces."""
    from connectrpc.errors import ConnectError

    kind = h.choice("reader", READERS)
    cname, comp = make_comp(h)
    limit = h.int("limit", 0)
    r = make_reader(h, kind, CodecStub(), comp, limit)
    g = FrameSpec()
    h.invariant("the buffer holds exactly the undelivered bytes", buffer_invariant(r, g))
    end_message_contracts(h)
    end = END_BIT[kind]

    def payload():
        if h.ex.branch(bit(g.flag(), 1)):
            return uf("decompress_gzip", V.S, V.S)(g.payload())
        return g.payload()

    def on_msg(m):
        h.cover("a message is delivered")
        h.check("C02.reader: nothing above the limit is delivered", V.slen(payload()) <= V.iexp(limit))
        g.pop()

    def on_decode(d):
        h.check("C02.reader: nothing above the limit is decoded", V.slen(d) <= V.iexp(limit))
    h.ex.data["on_decode"] = on_decode

    def body():
        chunk = h.bytes("chunk")
        if g.ended is not True:
            g.pend = h.cat(g.pend, chunk)
        try:
            h.consume(rt.call(r.feed, chunk), on_msg)
        except ConnectError as e:
            if e.code.name != "RESOURCE_EXHAUSTED":
                return "break"
            h.cover("a message is refused for its size")
            h.check("C02.reader: only a message above the limit is refused for its size", z3.And(g.complete(), V.slen(payload()) > V.iexp(limit)))
            return "break"
        except (ValueError, EndMessageError):
            return "break"
        if g.ended is not True and end is not None and h.ex.branch(z3.And(g.complete(), bit(g.flag(), end))):
            g.ended = True
            g.pend = b""

    h.repeat(body)


def limits(h):
    return h.int("limit", 0) if h.choice("limited", [True, False]) else None


def judged(h, prop, size, limit, calls, refused):
    """calls: what reached the handler (or caller); refused: failed for its size"""
    over = limit is not None and h.test(size > limit)
    if over:
        h.check(f"{prop}: a larger message is not delivered", calls == [])
        h.check(f"{prop}: it fails as resource_exhausted", refused)
    else:
        h.check(f"{prop}: a message within the limit is delivered", len(calls) == 1)
    return not over


def keep(h, mode, calls):
    if mode == "async":
        async def fn(request, ctx):
            calls.append(request)
            return message(h, "response")
    else:
        def fn(request, ctx):
            calls.append(request)
            return message(h, "response")
    return fn


def error_code(h, x):
    """The code of a Connect unary error response."""
    import json

    return h.call(json.loads, h.call(b"".join, h.list(*x.body)))["code"]


@target("C02", "asgi_post", reentry=True)
def asgi_post(h):
    calls = []
    limit = limits(h)
    enc = h.choice("encoding", ["identity", "gzip"])
    app = make_app(h, "async", [("/p.S/M", endpoint(h, "async", "unary", keep(h, "async", calls)))], compressions=[compression(h, may_fail=False)], read_max_bytes=limit)
    rx = Rx(h)
    x = serve(h, "async", app, headers=[("content-type", "application/proto"), ("content-encoding", enc)], receive=rx)
    if rx.whole is not True:
        h.check("C02.asgi_post: not delivered", calls == [])
        return
    body = V.bexpr(rx.got)
    if enc == "gzip" and h.ex.branch(V.slen(body) > 0):
        body = uf("decompress_gzip", V.S, V.S)(body)
    if judged(h, "C02.asgi_post", SymInt(V.slen(body)), limit, calls, x.status == 429):
        h.check("C02.asgi_post: whole", h.eq(calls[0], MsgVal(decode_e(body))))
    else:
        h.check("C02.asgi_post: with that code", h.eq(error_code(h, x), "resource_exhausted"))


@target("C02", "wsgi_post", split={"encoding": 2, "announced": 2}, reentry=True)
def wsgi_post(h):
    calls = []
    limit = limits(h)
    enc = h.choice("encoding", ["identity", "gzip"])
    ann = h.choice("announced", [True, False])
    inp = Input(h, None)
    at_call = []

    def on_decode(d):
        at_call.append(d)
    h.ex.data["on_decode"] = on_decode
    cl = h.int("content_length", 1)
    if ann:
        h.invariant("no more is read than was announced", lambda L, st: V.slen(V.bexpr(inp.got)) <= V.iexp(cl))
    app = make_app(h, "sync", [("/p.S/M", endpoint(h, "sync", "unary", keep(h, "sync", calls)))], compressions=[compression(h, may_fail=False)], read_max_bytes=limit)
    x = serve(h, "sync", app, headers=[("content-type", "application/proto"), ("content-encoding", enc)], wsgi_input=inp, content_length=h.call(str, cl) if ann else None)
    if calls:
        h.check("C02.wsgi_post: only what is within the limit is decoded", limit is None or z3.And(*[V.slen(d) <= V.iexp(limit) for d in at_call]))
        return
    if ann and inp.ended is True:
        return  # cut short
    body = V.bexpr(inp.got)
    if enc == "gzip":
        body = uf("decompress_gzip", V.S, V.S)(body)
    h.check("C02.wsgi_post: only a larger message fails", limit is not None and V.slen(body) > V.iexp(limit))
    h.check("C02.wsgi_post: with resource_exhausted", x.status == 429)
    h.check("C02.wsgi_post: nothing larger is decoded", not at_call)


@target("C02", "get", replay=True)
def get(h):
    from urllib.parse import urlencode
    import base64

    mode = h.choice("mode", ["async", "sync"])
    limit = limits(h)
    calls = []
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "unary", keep(h, mode, calls), method("unary", "NO_SIDE_EFFECTS")))], compressions=[compression(h, may_fail=False)], read_max_bytes=limit)
    payload = h.bytes("payload")
    comp = h.choice("compression", ["absent", "identity", "gzip"])
    sent = payload
    if comp == "gzip":
        sent = h.call(compression(h).compress, payload)
        if h.symbolic:
            V.fact(V.slen(V.bexpr(sent)) > 0)
    q = [("connect", "v1"), ("encoding", "proto"), ("message", h.call(h.call(base64.urlsafe_b64encode, sent).decode)), ("base64", "1")]
    if comp != "absent":
        q.append(("compression", comp))
    x = serve(h, mode, app, http_method="GET", query=h.call(urlencode, h.dict(q)))
    if judged(h, "C02.get", h.len(payload), limit, calls, x.status == 429):
        h.check("C02.get: whole", h.eq(calls[0], decoded(h, payload)))


@target("C02", "server_stream", replay=True, split={"mode": 2, "protocol": 3})
def server_stream(h):
    """The limit of the application is that of the reader, for every protocol and kind."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS if proto != "connect" else KINDS[1:])
    limit = limits(h)
    calls = []
    ep = endpoint(h, mode, kind, collecting(h, mode, kind, calls))
    app = make_app(h, mode, [("/p.S/M", ep)], compressions=[compression(h, may_fail=False)], read_max_bytes=limit)
    payload = h.bytes("payload")
    packed = h.choice("compressed", [True, False])
    sent = h.call(compression(h).compress, payload) if packed else payload
    if h.symbolic:
        for b in (payload, sent):
            V.fact(V.slen(V.bexpr(b)) < 2**32)
    hs = [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")]
    x = serve(h, mode, app, headers=hs, body=[frame(h, int(packed), sent)])
    over = limit is not None and h.test(h.len(payload) > limit)
    if over:
        h.check("C02.server_stream: a larger message is not delivered", calls == [])
        h.check("C02.server_stream: it fails as resource_exhausted", h.eq(outcome_code(h, proto, x), "resource_exhausted" if proto == "connect" else "8"))
    else:
        h.check("C02.server_stream: a message within the limit is delivered", len(calls) == 1 and h.test(h.eq(calls[0], decoded(h, payload))))
        h.check("C02.server_stream: and succeeds", h.eq(outcome_code(h, proto, x), None if proto == "connect" else "0"))


@target("C02", "client", replay=True, split={"mode": 2, "protocol": 3})
def client(h):
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    limit = limits(h)
    payload = h.bytes("payload")
    if proto == "connect" and kind == "unary":
        reply = {"headers": [("content-type", "application/proto")], "body": payload}
    else:
        packed = h.choice("compressed", [True, False])
        sent = h.call(compression(h).compress, payload) if packed else payload
        if h.symbolic:
            for b in (payload, sent):
                V.fact(V.slen(V.bexpr(b)) < 2**32)
        reply = {"headers": [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")],
                 "body": h.cat(frame(h, int(packed), sent), success(h, proto)), "trailers": [("grpc-status", "0")]}
    k, e, got, _ = exchange(h, mode, proto, kind, reply, accept_compression=[compression(h, may_fail=False)], read_max_bytes=limit)
    over = limit is not None and h.test(h.len(payload) > limit)
    if over:
        h.check("C02.client: a larger message is not delivered", got == [])
        h.check("C02.client: it fails as resource_exhausted", k == "exc" and isinstance(e, ConnectError) and e.code.name == "RESOURCE_EXHAUSTED")
    elif unary_stream_end_over(h, proto, kind, limit):
        return
    else:
        h.check("C02.client: a message within the limit is delivered", k == "ok" and len(got) == 1 and h.test(h.eq(got[0], decoded(h, payload))))


def unary_stream_end_over(h, proto, kind, limit):
    """The frame that ends the response is held to the limit too."""
    if limit is None or proto == "grpc" or proto == "connect" and kind == "unary":
        return False
    n = {"connect": 2, "grpc-web": len(b"grpc-status: 0\r\n")}[proto]
    return h.test(limit < n)
