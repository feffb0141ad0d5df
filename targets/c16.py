"""C16: responses are decoded only if they match the request's protocol and codec."""
from pyvc.harness import *
from targets.world import *

PREFIX = {"connect": "application/connect+", "grpc": "application/grpc+", "grpc-web": "application/grpc-web+"}
BARE = {"grpc": "application/grpc", "grpc-web": "application/grpc-web"}


class Watch:
    """A codec that counts what it decodes."""

    def __init__(self, inner):
        self.inner, self.n = inner, 0

    def name(self):
        return self.inner.name()

    def encode(self, m):
        return self.inner.encode(m)

    def decode(self, b, c):
        self.n += 1
        return self.inner.decode(b, c)


@target("C16", "unary", replay=True)
def unary(h):
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    name = h.choice("codec", ["proto", "json"])
    x, b = h.cased("type", ";")
    ct = x if h.choice("parameters", [False, True]) is False else h.call("".join, [x, ";", h.str("parameters")])
    c = Watch(codec(h, name))
    body = h.bytes("body")
    k, e, got, _ = exchange(h, mode, "connect", "unary", {"headers": [("content-type", ct)], "body": body}, codec=c)
    if h.test(h.eq(b, "application/" + name)):
        h.check("C16.unary: a response of the right type is the result", k == "ok" and c.n == 1)
        h.check("C16.unary: the result is the decoded body", h.eq(got[0], decoded(h, body)))
        return
    h.check("C16.unary: any other type fails the call", k == "exc" and isinstance(e, ConnectError))
    h.check("C16.unary: and is not decoded", c.n == 0)
    want = "INTERNAL" if h.test(h.call(b.startswith, "application/")) else "UNKNOWN"
    h.check("C16.unary: internal for another codec, unknown for another protocol", e.code.name == want)


@target("C16", "unary_no_type", replay=True)
def unary_no_type(h):
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    c = Watch(codec(h))
    k, e, got, _ = exchange(h, mode, "connect", "unary", {"headers": [], "body": h.bytes("body")}, codec=c)
    h.check("C16.unary_no_type: fails", k == "exc" and isinstance(e, ConnectError) and e.code.name == "UNKNOWN")
    h.check("C16.unary_no_type: nothing is decoded", c.n == 0)


@target("C16", "unary_parameters", replay=True)
def unary_parameters(h):
    """Any parameters after the right type, in the letter cases of a few samples."""
    mode = h.choice("mode", ["async", "sync"])
    t = h.choice("type", ["application/proto", "Application/Proto", "APPLICATION/PROTO", " application/proto "])
    c = Watch(codec(h))
    body = h.bytes("body")
    k, e, got, _ = exchange(h, mode, "connect", "unary", {"headers": [("content-type", h.call("".join, [t, ";", h.str("parameters")]))], "body": body}, codec=c)
    h.check("C16.unary_parameters: accepted", k == "ok")
    h.check("C16.unary_parameters: decoded", h.eq(got[0], decoded(h, body)))


def stream_body(h, proto):
    if proto == "connect":
        return h.cat(frame(h, 0, b"m"), frame(h, 2, b"{}"))
    if proto == "grpc":
        return frame(h, 0, b"m")
    return h.cat(frame(h, 0, b"m"), frame(h, 128, b"grpc-status: 0\r\n"))


@target("C16", "stream", replay=True, unroll=12)
def stream(h):
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS if proto != "connect" else KINDS[1:])
    name = h.choice("codec", ["proto", "json"])
    given = h.choice("given", ["some", "none"])
    ct = h.str("content_type") if given == "some" else ""
    c = Watch(codec(h, name))
    k, e, got, _ = exchange(h, mode, proto, kind, {"headers": [("content-type", ct)] if given == "some" else [], "body": stream_body(h, proto), "trailers": [("grpc-status", "0")]}, codec=c)
    right = h.test(h.eq(ct, PREFIX[proto] + name)) or name == "proto" and proto in BARE and h.test(h.eq(ct, BARE[proto]))
    if right:
        h.check("C16.stream: a response of the right type is read", k == "ok" and c.n == 1 and len(got) == 1)
        return
    h.check("C16.stream: any other type fails the call", k == "exc" and isinstance(e, ConnectError))
    h.check("C16.stream: and is not decoded", c.n == 0)
    own = h.test(h.call(ct.startswith, PREFIX[proto])) or proto in BARE and h.test(h.eq(ct, BARE[proto]))
    h.check("C16.stream: internal for another codec, unknown for another protocol", e.code.name == ("INTERNAL" if own else "UNKNOWN"))


@target("C16", "not_200", replay=True, unroll=12)
def not_200(h):
    """Another status is never a message, whatever the type."""
    import json

    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    status = h.int("status", 100, 599)
    if h.test(h.eq(status, 200)):
        return
    described = h.choice("described", [True, False])
    text_ = h.str("text")
    if described:
        ct = "application/json"
        body = h.call(h.call(json.dumps, h.dict([("code", "aborted"), ("message", text_)])).encode)
    else:
        ct = h.choice("type", ["application/proto", PREFIX[proto] + "proto", "text/plain"])
        body = stream_body(h, proto)
    c = Watch(codec(h))
    k, e, got, _ = exchange(h, mode, proto, kind, {"status": status, "headers": [("content-type", ct)], "body": body, "trailers": [("grpc-status", "0")]}, codec=c)
    h.check("C16.not_200: fails", k == "exc" and isinstance(e, ConnectError) and not got)
    h.check("C16.not_200: nothing is decoded", c.n == 0)
    if described:
        h.check("C16.not_200: the error the body describes", h.and_(e.code.name == "ABORTED", h.eq(e.message, text_)))
    else:
        from targets.c04 import from_http

        h.check("C16.not_200: the error of the status", e.code.name == from_http(h, status))
