"""C10: methods of one message get and give exactly one."""
from pyvc.harness import *
from targets.world import *


class Once(Ghost):
    """What the handler was called with."""

    def __init__(self):
        self.calls = 0
        self.request = None
        self.at = None


def noting(h, mode, kind, seen, frames):
    def note(request):
        seen.calls += 1
        seen.request = request
        seen.at = (frames.n, frames.last, frames.state)
    if mode == "async":
        if kind == "unary":
            async def fn(request, ctx):
                note(request)
                return message(h, "response")
        else:
            async def fn(request, ctx):
                note(request)
                yield message(h, "response")
    elif kind == "unary":
        def fn(request, ctx):
            note(request)
            return message(h, "response")
    else:
        def fn(request, ctx):
            note(request)
            yield message(h, "response")
    return fn


@target("C10", "server", split={"mode": 2, "protocol": 3, "kind": 2}, reentry=True)
def server(h):
    """Any number of request messages, ended in any way."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["server_stream", "unary"])
    if proto == "connect" and kind == "unary":
        return  # not framed: C15
    packed = h.choice("compressed", [False, True])
    frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, packed)
    seen = Once()
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, noting(h, mode, kind, seen, frames)))], compressions=[compression(h, may_fail=False)])
    hs = [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")]
    x = serve(h, mode, app, headers=hs, receive=frames.receive, wsgi_input=frames)
    h.check("C10.server: the handler is called at most once", seen.calls in (0, 1))
    if seen.calls == 1:
        h.cover("the handler is called")
        n, last, state = seen.at
        h.check("C10.server: the handler is called only for exactly one message", h.eq(n, 1))
        h.check("C10.server: of a whole request", state == "whole")
        h.check("C10.server: it is called with that message", h.eq(seen.request, decoded(h, last)))
        h.check("C10.server: and the RPC succeeds", h.eq(outcome_code(h, proto, x), None if proto == "connect" else "0"))
        return
    if frames.state == "fault" and mode == "sync":
        return  # the HTTP server's error
    code = outcome_code(h, proto, x)
    h.check("C10.server: otherwise the RPC fails", h.not_(h.eq(code, None if proto == "connect" else "0")))
    if h.test(frames.n >= 2) or frames.state == "whole":
        h.check("C10.server: one message of a whole request is handled", h.not_(h.eq(frames.n, 1)))
        if h.test(frames.n == 0) or frames.state == "whole" or frames.state is None:
            h.cover("no or several messages")
            h.check("C10.server: no or several messages are unimplemented", h.eq(code, "unimplemented" if proto == "connect" else "12"))


@target("C10", "client", split={"mode": 2, "protocol": 3, "kind": 2}, reentry=True)
def client(h):
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["client_stream", "unary"])
    if proto == "connect" and kind == "unary":
        return  # not framed
    packed = h.choice("compressed", [False, True])
    if proto == "grpc":
        frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, packed)
        status = h.choice("status", ["0", "10"])
        trailers = [("grpc-status", status)]
    else:
        ok = success(h, proto)
        bad = frame(h, 2, b'{"error": {"code": "aborted"}}') if proto == "connect" else frame(h, 128, b"grpc-status: 10\\r\\n".replace(b"\\r\\n", b"\r\n"))
        frames = Frames(h, {"success": ok, "error": bad, "nothing": b"", "cut": b"", "fault": b""}, packed)
        trailers = []
    frames.few = True
    reply = {"headers": [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")],
             "chunks": frames, "trailers": trailers}
    k, e, got, _ = exchange(h, mode, proto, kind, reply, accept_compression=[compression(h, may_fail=False)])
    if proto == "grpc":
        end = frames.state if frames.state != "whole" else "success" if status == "0" else "error"
    else:
        end = frames.state
    if k == "ok":
        h.cover("a response is returned")
        h.check("C10.client: a response is returned only for exactly one message", h.eq(frames.n, 1))
        h.check("C10.client: that then succeeded", end == "success")
        h.check("C10.client: it is that message", len(got) == 1 and h.test(h.eq(got[0], decoded(h, frames.last))))
        return
    h.check("C10.client: failures are of the library's type", isinstance(e, ConnectError))
    h.check("C10.client: one message of a successful response is returned", h.not_(h.and_(h.eq(frames.n, 1), end == "success")))
    if h.test(frames.n >= 2):
        h.cover("several messages")
        h.check("C10.client: several messages are unimplemented", e.code.name == "UNIMPLEMENTED")
    elif h.test(h.eq(frames.n, 0)) and end == "success":
        h.cover("no message")
        h.check("C10.client: no message in a successful response is unimplemented", e.code.name == "UNIMPLEMENTED")
    elif end == "error":
        h.cover("an error")
        h.check("C10.client: else it is the response's own error", e.code.name == "ABORTED")
