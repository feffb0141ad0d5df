"""C09: success is reported only for RPCs that succeeded.  Streams of any length."""
from pyvc.harness import *
from targets.world import *


class Count(Ghost):
    _terms = ("n",)

    def __init__(self):
        self.n = 0
        self.how = None

    def add(self):
        self.n = self.n + 1 if not is_sym(self.n) else SymInt(V.simp(self.n.e + 1))


@target("C09", "client", split={"mode": 2, "protocol": 3, "compressed": 2}, reentry=True)
def client(h):
    """A response of any number of messages that ends in any way."""
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    packed = h.choice("compressed", [False, True])
    if proto == "grpc":
        frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, packed, proto=proto)
        status, early = h.choice("status", [("0", None), ("10", None), (None, None), (None, "0")])
        trailers = [("grpc-status", status)] if status else []
    else:
        ok = success(h, proto)
        bad = frame(h, 2, b'{"error": {"code": "aborted"}}') if proto == "connect" else frame(h, 128, b"grpc-status: 10\r\n")
        frames = Frames(h, {"success": ok, "error": bad, "nothing": b"", "cut": b"", "fault": b""}, packed, proto=proto)
        trailers, early = [], None
    wire = Wire(h, mode, {"headers": ([("grpc-status", early)] if early else []) + [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")], "chunks": frames, "trailers": trailers})
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h), accept_compression=[compression(h, may_fail=False)])
    seen = Count()

    def on(m):
        seen.add()
        h.check("C09.client: a message is the payload of the frame just received", h.eq(m, decoded(h, frames.last)))

    def run():
        r = h.call(cl.execute_server_stream, request=message(h, "request"), method=method("server_stream"))
        if mode == "async":
            h.drive(h.aconsume(r, on))
        else:
            h.consume(r, on)
    k, e = h.outcome(run)
    if proto == "grpc":
        # a response without messages may have its status in the headers only
        good = frames.state == "whole" and (status == "0" or status is None and early == "0" and h.test(h.eq(frames.n, 0)))
    else:
        good = frames.state == "success"
    if k == "ok":
        h.cover("complete")
        h.check("C09.client: complete only with the protocol's success terminator and no incomplete message", good)
        h.check("C09.client: complete only with every message delivered", h.eq(seen.n, frames.n))
    else:
        h.cover("failed")
        h.check("C09.client: failures are of the library's type", isinstance(e, ConnectError))
        h.check("C09.client: a successful response is complete", frames.state is not None and not good)


@target("C09", "request", split={"mode": 2, "protocol": 3, "kind": 2}, reentry=True)
def request(h):
    """A request of any number of messages that ends in any way, and a handler that reads it."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["client_stream", "bidi_stream"])
    packed = h.choice("compressed", [False, True])
    frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, packed, proto=proto)
    seen = Count()

    def on(m):
        seen.add()

    def judge(how):
        seen.how = how
        if how == "complete":
            h.cover("a request is complete")
            h.check("C09.request: a handler sees the end of a request only if it was whole", frames.state == "whole")
            h.check("C09.request: with every message delivered", h.eq(seen.n, frames.n))
        else:
            h.cover("a request is broken")
            h.check("C09.request: a whole request is complete", frames.state is not None and frames.state != "whole")
    if mode == "async":
        async def read(request):
            try:
                await h.aconsume(request, on)
            except Exception:
                judge("broken")
                raise
            judge("complete")
        if kind == "client_stream":
            async def fn(request, ctx):
                await read(request)
                return message(h, "response")
        else:
            async def fn(request, ctx):
                await read(request)
                yield message(h, "response")
    else:
        def read(request):
            try:
                h.consume(request, on)
            except Exception:
                judge("broken")
                raise
            judge("complete")
        if kind == "client_stream":
            def fn(request, ctx):
                read(request)
                return message(h, "response")
        else:
            def fn(request, ctx):
                read(request)
                yield message(h, "response")
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], compressions=[compression(h, may_fail=False)])
    hs = [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")]
    mon = Monitor(h, "C09.request", proto)
    serve_stream(h, mode, app, mon, hs, receive=frames.receive, wsgi_input=frames)
    h.check("C09.request: the terminator is success iff the handler completed", mon.success() == (seen.how == "complete"))


@target("C09", "response", split={"mode": 2, "protocol": 3, "kind": 2, "sending": 2}, reentry=True)
def response(h):
    """A handler that yields any number of messages and ends in any way."""
    import asyncio

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["server_stream", "bidi_stream"])
    fails = h.choice("sending", [False, True])
    if fails and mode == "sync":
        return
    ends = ["done", "rpc_error", "error"] + (["cancelled"] if mode == "async" else [])
    out = Responses(h, ends)

    def fn(request, ctx):
        return out
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))])
    mon = Monitor(h, "C09.response", proto, fails)
    body = [frame(h, 0, b"m")]

    async def receive():
        return h.dict([("type", "http.request"), ("body", body.pop(0) if body else b""), ("more_body", False)])
    connected = h.choice("connected", [True, False])
    serve_stream(h, mode, app, mon, [("content-type", CT[proto])], receive=receive, wsgi_input=WsgiInput(h, body), connected=connected)
    s = mon.success()
    if s is None:
        h.check("C09.response: a response without an end is one the HTTP server did not take", mon.failed)
    elif s:
        h.cover("success")
        h.check("C09.response: success is reported only if the handler completed", out.state == "done")
        h.check("C09.response: and every message was sent", h.and_(not mon.failed, h.eq(mon.n, out.n)))
    else:
        h.cover("error")
        h.check("C09.response: an error is reported only for a reason", out.state != "done" or mon.failed or not connected)


@target("C09", "single", split={"mode": 2, "protocol": 3}, reentry=True)
def single(h):
    """Handlers of one response."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["unary", "client_stream"])
    how = h.choice("ends", ["done", "rpc_error", "error"] + (["cancelled"] if mode == "async" else []))

    def act():
        finish(h, how)
        return message(h, "response")
    if mode == "async":
        async def fn(request, ctx):
            return act()
    else:
        def fn(request, ctx):
            return act()
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))])
    if proto == "connect" and kind == "unary":
        x = serve(h, mode, app, headers=[("content-type", "application/proto")], body=[b"m"])
        h.check("C09.single: success is reported iff the handler completed", (x.status == 200) == (how == "done"))
        return
    x = serve(h, mode, app, headers=[("content-type", CT[proto])], body=[frame(h, 0, b"m")])
    code = outcome_code(h, proto, x)
    h.check("C09.single: success is reported iff the handler completed", h.eq(h.eq(code, None if proto == "connect" else "0"), how == "done"))
