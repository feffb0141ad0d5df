"""C08: one well-formed HTTP response to every request."""
from pyvc.harness import *
from targets.world import *


def make_handler(h, mode, kind, out, how, touch):
    """A handler of any kind: reads none of its request, sets what it likes, ends as it likes."""
    def act(ctx):
        touch(ctx)
        finish(h, how)
        return message(h, "response")
    if kind in ("server_stream", "bidi_stream"):
        def fn(request, ctx):
            touch(ctx)
            return out
    elif mode == "async":
        async def fn(request, ctx):
            return act(ctx)
    else:
        def fn(request, ctx):
            return act(ctx)
    return fn


def toucher(h, set_trailers):
    def touch(ctx):
        if set_trailers:
            h.call(ctx.response_headers.add, "x-handler", h.str("header"))
            h.call(ctx.response_trailers.add, "x-handler", h.str("trailer"))
    return touch


@target("C08", "stream", split={"mode": 2, "protocol": 3, "kind": 4}, reentry=True)
def stream(h):
    """Framed methods: any number of responses, any end, codecs that fail."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["server_stream", "bidi_stream", "unary", "client_stream"])
    if proto == "connect" and kind == "unary":
        return
    ends = ["done", "rpc_error", "error"] + (["cancelled"] if mode == "async" else [])
    streaming = kind in ("server_stream", "bidi_stream")
    out = Responses(h, ends) if streaming else None
    how = None if streaming else h.choice("ends", ends)
    codec_fails = h.choice("codec_fails", [False, True])
    packed = h.choice("compressed", [False, True]) if not codec_fails else False
    fn = make_handler(h, mode, kind, out, how, toucher(h, not codec_fails))
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], codecs=[codec(h, may_fail=codec_fails)], compressions=[compression(h)])
    mon = Monitor(h, "C08.stream", proto)
    frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, packed)
    if streaming:
        # the messages of the request are C09's and C10's matter
        frames.few = True
    hs = [("content-type", CT[proto])]
    if packed:
        hs += [("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip"), ("connect-accept-encoding" if proto == "connect" else "grpc-accept-encoding", "gzip")]
    connected = h.choice("connected", [True, False]) if not codec_fails else True
    k, e = serve_stream(h, mode, app, mon, hs, receive=frames.receive, wsgi_input=frames, connected=connected)
    h.cover("answered")
    mon.well_formed()


def plain(h, mon, k, e):
    """A response that is not a stream."""
    h.check("C08: exactly one response is completed", mon.phase == "complete")
    h.check("C08: no trailers are announced", not mon.announced)


class Pieces(Ghost):
    """A request body of any pieces, ended in any way."""

    _terms = ()

    def __init__(self, h):
        self.h, self.over = h, None

    async def receive(self):
        h = self.h
        k = "gone" if self.over is not None else h.choice("piece", ["piece", "last", "gone", "unknown"])
        if k == "piece":
            return h.dict([("type", "http.request"), ("body", h.bytes("piece")), ("more_body", True)])
        self.over = k
        if k == "last":
            return h.dict([("type", "http.request"), ("body", h.bytes("piece"))])
        return h.dict([("type", "http.disconnect" if k == "gone" else "http.other")])

    def read(self, n=-1):
        h = self.h
        k = self.over or h.choice("piece", ["piece", "end", "fault"])
        if k == "piece":
            b = h.bytes("piece")
            V.fact(V.slen(V.bexpr(b)) > 0)
            return b
        self.over = k
        if k == "fault":
            raise OSError("connection lost")
        return b""


@target("C08", "unary", split={"mode": 2, "http_method": 2}, reentry=True)
def unary(h):
    """Connect unary: any body, any query, codecs and compressions that fail, any handler."""
    from connectrpc.method import IdempotencyLevel

    mode = h.choice("mode", ["async", "sync"])
    verb = h.choice("http_method", ["POST", "GET"])
    how = h.choice("ends", ["done", "rpc_error", "error"])
    fn = make_handler(h, mode, "unary", None, how, toucher(h, True))
    m = method("unary", "NO_SIDE_EFFECTS")
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "unary", fn, m))], codecs=[codec(h, may_fail=True)], compressions=[compression(h)],
                   read_max_bytes=h.int("limit", 1) if h.choice("limited", [False, True]) else None)
    mon = Monitor(h, "C08.unary", None)
    hs = [("accept-encoding", h.choice("accept", ["gzip", "other"]))]
    query = ""
    body = Pieces(h)
    if verb == "POST":
        hs += [("content-type", "application/proto"), ("content-encoding", h.choice("encoding", ["gzip", "other"]))]
        if mode == "sync" and h.choice("announced", [False, True]):
            hs.append(("content-length", h.str("length")))
    else:
        v = h.choice("query", ["message=AAAA&encoding=proto&base64=1", "message=a%00&encoding=proto&compression=gzip", "message=A&encoding=proto&base64=1", "encoding=proto", "message=a", "message=a&encoding=proto&compression=x", "", "&&=&"])
        query = v
    k, e = serve_stream(h, mode, app, mon, hs, receive=body.receive, wsgi_input=body, http_method=verb, query=query)
    h.cover("answered")
    plain(h, mon, k, e)
    if k == "ok" and h.test(h.eq(mon.status, 200)):
        h.cover("success")
        h.check("C08.unary: success only for a handler that returned", how == "done")


@target("C08", "anything", split={"mode": 2, "free": 5, "kind": 2}, reentry=True)
def anything(h):
    """Any path, HTTP method, content type and headers."""
    mode = h.choice("mode", ["async", "sync"])
    what = h.choice("free", ["path", "http_method", "content-type", "version", "timeout"])
    kind = h.choice("kind", ["unary", "server_stream"])
    fn = collecting(h, mode, kind, [])
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn, method(kind, "NO_SIDE_EFFECTS" if kind == "unary" else "UNKNOWN")))], codecs=[codec(h)], compressions=[compression(h)])
    mon = Monitor(h, "C08.anything", None)
    path = h.str("path") if what == "path" else "/p.S/M"
    verb = h.str("http_method") if what == "http_method" else "POST"
    if what == "content-type":
        ct, _ = h.cased("content_type", ";")
        if h.choice("parameters", [False, True]):
            ct = h.call("".join, [ct, ";", h.str("parameters")])
    else:
        ct = "application/proto" if kind == "unary" else "application/connect+proto"
    hs = [("content-type", ct)]
    if what == "version":
        hs.append(("connect-protocol-version", h.str("version")))
    if what == "timeout":
        hs.append(("connect-timeout-ms", h.str("timeout")))
    body = [frame(h, 0, b"m")]

    async def receive():
        return h.dict([("type", "http.request"), ("body", body.pop(0) if body else b""), ("more_body", False)])
    k, e = serve_stream(h, mode, app, mon, hs, receive=receive, wsgi_input=WsgiInput(h, body), path=path, http_method=verb)
    h.cover("answered")
    h.check("C08.anything: exactly one response is completed", mon.phase == ("trailers" if mon.announced or mon.status_trailer is not None else "complete"))
