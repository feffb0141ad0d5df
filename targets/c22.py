"""C22: calls do not influence one another.

What is proved of one call, with whatever happens in it: it leaves everything that can be reached
from the application or client, and from the modules of the library, as it was (the frame
condition, for streams of any length).  By induction any history of calls does, so that a later
call is treated as a first one.  Where the frame condition does not hold, some history may matter
or not (a cache, say): the pairs of calls decide (`pairs`, `client_pairs`)."""
import functools
import sys
import types
from contextvars import ContextVar

from pyvc.harness import *
from targets.world import *


# ------------------------------------------------------------------ pictures of the heap
def picture(root):
    """A comparable picture of what can be reached from root, within the library."""
    seen = {}

    def go(x, depth=0):
        if x is None or isinstance(x, (bool, int, float, str, bytes, complex, type(...))):
            return x
        if is_sym(x):
            return ("term", x.e.sexpr() if hasattr(x, "e") else id(x))
        if id(x) in seen:
            return ("seen", seen[id(x)])
        if isinstance(x, type):
            if not x.__module__.startswith("connectrpc") or x.__module__.startswith("connectrpc._gen"):
                return ("class", id(x))
            seen[id(x)] = len(seen)
            return ("class", x.__name__, [(k, go(v, depth + 1)) for k, v in sorted(x.__dict__.items()) if not k.startswith("__") and k not in ("_abc_impl",)])
        seen[id(x)] = len(seen)
        if isinstance(x, dict):
            return ("dict", [(go(k, depth + 1), go(v, depth + 1)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [go(v, depth + 1) for v in x])
        if isinstance(x, (set, frozenset)):
            return ("set", sorted((repr(go(v, depth + 1)) for v in x)))
        if isinstance(x, bytearray):
            return ("bytearray", bytes(x))
        if isinstance(x, ContextVar):
            v = x.get(None)
            return ("var", id(v), go(v, depth + 1))
        if isinstance(x, functools.partial):
            return ("partial", go(x.func, depth + 1), go(x.args, depth + 1), go(x.keywords, depth + 1))
        if isinstance(x, types.FunctionType):
            if not (x.__module__ or "").startswith("connectrpc"):
                return ("function", id(x))
            cells = []
            for c in x.__closure__ or ():
                try:
                    cells.append(go(c.cell_contents, depth + 1))
                except ValueError:
                    cells.append("empty")
            return ("function", id(x), go(x.__defaults__, depth + 1), go(x.__kwdefaults__, depth + 1), cells)
        if isinstance(x, types.MethodType):
            return ("method", go(x.__func__, depth + 1), go(x.__self__, depth + 1))
        if (type(x).__module__ or "").startswith("connectrpc") or x is root or isinstance(x, Headers_()):
            d = dict(getattr(x, "__dict__", None) or {})
            for c in type(x).__mro__:
                for s in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
                    d.setdefault(s, getattr(x, s, None))
            extra = [go(v, depth + 1) for v in x.items()] if isinstance(x, dict) else ()
            return (type(x).__name__, id(x), [(k, go(v, depth + 1)) for k, v in sorted(d.items())], extra)
        return (type(x).__name__, id(x))

    out = [go(root)]
    for n, m in sorted(sys.modules.items()):
        if n.startswith("connectrpc") and not n.startswith("connectrpc._gen") and not n.startswith("connectrpc_") and m is not None:
            out.append((n, [(k, go(v)) for k, v in sorted(m.__dict__.items()) if not k.startswith("__") and not isinstance(v, types.ModuleType)]))
    return out


def Headers_():
    from connectrpc.request import Headers

    return Headers


def frame_holds(h, what, before, root):
    """The frame condition (without it nothing follows about later calls, either way)."""
    after = picture(root)
    t, h.ex.taint = h.ex.taint, True
    try:
        d = difference(before, after)
        h.ex.check(f"C22.{what}: a call leaves the application, the client and the library as they were", d is None, note=str(d), stop=False)
    finally:
        h.ex.taint = t


def difference(a, b, at=""):
    if type(a) is not type(b):
        return at, a, b
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return at, a, b
        for n, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{at}/{x if isinstance(x, str) else n}")
            if d:
                return d
        return None
    return None if a == b else (at, a, b)


# ------------------------------------------------------------------ one call, in any way
class Stamp:
    """A metadata interceptor that sets metadata."""

    async def on_start(self, ctx):
        ctx.response_headers.add("i-h", "1")

    async def on_end(self, token, ctx, error):
        ctx.response_trailers.add("i-t", "1")

    def on_start_sync(self, ctx):
        ctx.response_headers.add("i-h", "1")

    def on_end_sync(self, token, ctx, error):
        ctx.response_trailers.add("i-t", "1")


def frame_server(h, many):
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    ints = h.choice("interceptors", [[], [Stamp()]])
    first, second = h.field("v1"), h.field("v2")

    def meta(ctx):
        ctx.response_headers.add("r-h", first)
        ctx.response_trailers.add("r-t", second)
    if many == "requests":
        source = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, True, proto=proto)
        kw = dict(receive=source.receive, wsgi_input=source)
        way = h.choice("handler", ["done", "rpc_error", "error"])
        response = message(h, "response")
        if mode == "async":
            async def fn(request, ctx):
                meta(ctx)
                await h.aconsume(request, lambda m: None)
                finish_(h, way)
                return response
        else:
            def fn(request, ctx):
                meta(ctx)
                h.consume(request, lambda m: None)
                finish_(h, way)
                return response
        kind = "client_stream"
    else:
        out = Responses(h, ["done", "rpc_error", "error"] + (["cancelled"] if mode == "async" else []))
        body = [frame(h, 0, b"m")]

        async def receive():
            return h.dict([("type", "http.request"), ("body", body.pop(0) if body else b""), ("more_body", False)])
        kw = dict(receive=receive, wsgi_input=WsgiInput(h, list(body)))

        def fn(request, ctx):
            meta(ctx)
            return out
        kind = "server_stream"
    codecs, cs = h.list(codec(h)), h.list(compression(h, may_fail=False))
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], codecs=codecs, compressions=cs, interceptors=ints)
    serve(h, mode, app, path="/nope")
    before = picture(app)
    hs = [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip"),
          ("connect-accept-encoding" if proto == "connect" else "grpc-accept-encoding", "gzip" if many == "requests" else h.choice("accepts", ["gzip", "br"]))]
    mon = Monitor(h, "C22.server", proto)
    serve_stream(h, mode, app, mon, hs, **kw)
    h.cover("a call")
    frame_holds(h, "frame_server", before, app)
    h.check("C22.frame_server: the caller's collections are not modified", len(codecs) == 1 and len(cs) == 1 and len(ints) in (0, 1))


@target("C22", "frame_requests", split={"mode": 2, "protocol": 3, "interceptors": 2}, reentry=True)
def frame_requests(h):
    """A call with any number of request messages, that ends in any way."""
    frame_server(h, "requests")


@target("C22", "frame_responses", split={"mode": 2, "protocol": 3, "interceptors": 2}, reentry=True)
def frame_responses(h):
    """A call with any number of responses, that ends in any way."""
    frame_server(h, "responses")


@target("C22", "frame_client", split={"mode": 2, "protocol": 3}, reentry=True)
def frame_client(h):
    """A call with any number of response messages that ends in any way."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    if proto == "grpc":
        frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, True, proto=proto)
        trailers = [("grpc-status", h.choice("status", ["0", "10"])), ("t", "1")]
    else:
        bad = frame(h, 2, b'{"error": {"code": "aborted"}, "metadata": {"t": ["1"]}}') if proto == "connect" else frame(h, 128, b"grpc-status: 10\r\nt: 1\r\n")
        frames = Frames(h, {"success": success(h, proto), "error": bad, "cut": b"", "fault": b""}, True, proto=proto)
        trailers = []
    wire = Wire(h, mode, {"headers": [("content-type", CT[proto]), ("r-h", "1"), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")], "chunks": frames, "trailers": trailers})
    cs = h.list(compression(h, may_fail=False))
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h), accept_compression=cs, timeout_ms=h.choice("default timeout", [None, 5000]))
    before = picture(cl)
    request = message(h, "request")

    def run():
        r = h.call(cl.execute_server_stream, request=request, method=method("server_stream"))
        if mode == "async":
            h.drive(h.aconsume(r, lambda m: None))
        else:
            h.consume(r, lambda m: None)
    k, e = h.outcome(run)
    h.cover("success" if k == "ok" else "failure")
    frame_holds(h, "frame_client", before, cl)
    h.check("C22.frame_client: the caller's collections are not modified", len(cs) == 1)


# ------------------------------------------------------------------ pairs of calls
def same_pairs(h, a, b):
    return len(a) == len(b) and h.test(h.and_(*[h.and_(h.eq(x, u), h.eq(y, v)) for (x, y), (u, v) in zip(a, b)])) if a or b else True


def same_list(h, a, b):
    return len(a) == len(b) and (not a or h.test(h.and_(*[h.eq(x, y) for x, y in zip(a, b)])))


def same_error(h, a, b):
    return type(a) is type(b) and (not isinstance(a, Exception) or h.test(h.eq(h.call(str, a), h.call(str, b))))


ACCEPT = {"unary": "accept-encoding", "connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc-web": "grpc-accept-encoding"}
FORMS = [("unary", "connect"), ("server_stream", "connect"), ("server_stream", "grpc"), ("server_stream", "grpc-web")]


class Request_:
    """A request and what its handler will do."""

    def __init__(self, h, who, ways, accepts):
        self.kind, self.proto = h.choice(f"{who}: form", FORMS)
        self.way = h.choice(f"{who}: way", ways)
        un = self.kind == "unary"
        acc = h.choice(f"{who}: accepts", accepts) if self.way in ("done", "rpc_error") else None
        self.path, self.how, self.query = "/p.S/" + self.kind, "POST", ""
        ct = "application/proto" if un else CT[self.proto]
        hs = []
        body = b"m" if un else frame(h, 0, b"m")
        if self.way == "path":
            self.path = "/nope"
        elif self.way == "codec":
            ct = ct.replace("proto", "nope")
        elif self.way == "cut":
            body = b"" if un else b"\0\0"
        elif self.way == "method":
            self.how = "PUT"
        elif self.way == "get" and un:
            self.how, self.query = "GET", "connect=v1&encoding=proto&message=m"
        elif self.way == "encoding":
            hs.append(("content-encoding" if un else {"connect": "connect-content-encoding"}.get(self.proto, "grpc-encoding"), "zz"))
        elif self.way == "timeout":
            hs.append(TIMEOUT_OF[self.proto])
        if acc:
            hs.append((ACCEPT["unary" if un else self.proto], acc))
        self.headers = [("content-type", ct)] + hs
        self.body = [body]
        self.value, self.end = h.field("value " + who), h.field("end " + who)
        self.response = message(h, "response " + who)

    def act(self, h, ctx):
        ctx.response_headers.add("r-h", self.value)
        ctx.response_trailers.add("r-t", self.end)
        finish_(h, self.way)


TIMEOUT_OF = {"connect": ("connect-timeout-ms", "5000"), "grpc": ("grpc-timeout", "5S"), "grpc-web": ("grpc-timeout", "5S")}


def finish_(h, way):
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    if way == "rpc_error":
        raise h.new(ConnectError, Code.ABORTED, "m")
    if way == "error":
        raise HandlerError("handler")


@target("C22", "pairs", split={"mode": 2, "A: form": 4, "A: way": 9}, unroll=12, bounded="pairs of calls, one response message")
def pairs(h):
    """A request after another is treated as on a fresh application."""
    mode = h.choice("mode", ["async", "sync"])
    a = Request_(h, "A", ["done", "rpc_error", "error", "path", "codec", "cut", "get", "encoding", "timeout"], ["*", "br", "gzip, br"])
    b = Request_(h, "B", ["done", "rpc_error", "timeout"] if a.way in ("timeout", "done") else ["done"], [None, "br", "*"] if a.way in ("done", "rpc_error") else [None, "br"])
    now = []

    def app_():
        def unary(request, ctx):
            now[0].act(h, ctx)
            return now[0].response
        if mode == "async":
            async def one(request, ctx):
                return unary(request, ctx)

            async def many(request, ctx):
                yield now[0].response
                now[0].act(h, ctx)
        else:
            one = unary

            def many(request, ctx):
                yield now[0].response
                now[0].act(h, ctx)
        return make_app(h, mode, [("/p.S/unary", endpoint(h, mode, "unary", one, method("unary", "NO_SIDE_EFFECTS"))), ("/p.S/server_stream", endpoint(h, mode, "server_stream", many))],
                        compressions=[compression(h, "gzip", False), compression(h, "br", False)])

    def run(app, r):
        now[:] = [r]
        return serve(h, mode, app, path=r.path, headers=r.headers, body=r.body, http_method=r.how, query=r.query)
    app = app_()
    x = run(app, a)
    h.check("C22.pairs: the metadata of the first call is its own", not x.header(h, "x"))
    second = run(app, b)
    fresh = run(app_(), b)
    h.cover("a pair")
    h.check("C22.pairs: the same status", h.eq(second.status, fresh.status))
    h.check("C22.pairs: the same headers", same_pairs(h, second.headers, fresh.headers))
    h.check("C22.pairs: the same trailers", same_pairs(h, second.trailers, fresh.trailers))
    h.check("C22.pairs: the same body", same_list(h, second.body, fresh.body))
    h.check("C22.pairs: the same end", same_error(h, second.raised, fresh.raised))
    h.check("C22.pairs: the metadata of a call is its own", all(h.test(h.eq(v, b.value)) for v in second.header(h, "r-h")) and all(h.test(h.eq(v, b.end)) for v in second.header(h, "trailer-r-t") + second.trailer(h, "r-t")))


class Call_:
    """A call and what the peer answers."""

    def __init__(self, h, who, proto, ways, given):
        self.kind = h.choice(f"{who}: kind", ["unary", "server_stream"])
        self.way = h.choice(f"{who}: way", ways)
        un = self.kind == "unary" and proto == "connect"
        self.value, self.end = h.field("header " + who), "t" + who
        body = frame(h, 0, b"m")
        tr = []
        if proto == "grpc":
            tr = [("grpc-status", "0"), ("r-t", self.end)]
        elif proto == "connect":
            body = h.cat(body, frame(h, 2, b'{"metadata": {"r-t": ["%s"]}}' % self.end.encode()))
        else:
            body = h.cat(body, frame(h, 128, b"grpc-status: 0\r\nr-t: %s\r\n" % self.end.encode()))
        hs = [("content-type", "application/proto" if un else CT[proto]), ("r-h", self.value)]
        st = 200
        if un:
            body, hs = b"m", hs + [("trailer-r-t", self.end)]
        if self.way == "status":
            st = 503
        elif self.way == "type":
            hs[0] = ("content-type", "text/html")
        elif self.way == "cut":
            body = b"\0\0" if not un else b""
        self.reply = OSError("x") if self.way == "fault" else {"status": st, "headers": hs, "body": body, "trailers": tr}
        self.given = h.choice(f"{who}: headers", given)
        self.timeout = h.choice(f"{who}: timeout", [None, 5000]) if who == "A" else None
        self.get = un and h.choice(f"{who}: get", [False, True])


@target("C22", "client_pairs", split={"mode": 2, "protocol": 3, "A: kind": 2, "A: way": 5}, unroll=12, bounded="pairs of calls, one response message")
def client_pairs(h):
    """A call after another is made and ends as on a fresh client."""
    from connectrpc.client import ResponseMetadata
    from connectrpc.request import Headers

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    a = Call_(h, "A", proto, ["done", "status", "type", "cut", "fault"], ["none", "Headers", "dict"])
    b = Call_(h, "B", proto, ["done", "status"], ["none", "Headers", "dict"] if a.way == "done" else ["Headers"])
    value = h.field("request header")
    # the caller's own, for both calls
    own = h.new(Headers, [("x", value), ("x", "2"), ("y", "3")])
    plain = h.dict([("x", value)])
    cs = h.list(compression(h, "gzip", False))

    def client():
        wire = Wire(h, mode, None)
        return wire, make_client(h, mode, proto, http_client=wire, codec=codec(h), accept_compression=cs, send_compression=sent)

    sent = compression(h, "br", False)
    request = {"A": message(h, "request A"), "B": message(h, "request B")}

    def call(wire, cl, c, who):
        wire.reply = (lambda req: c.reply) if isinstance(c.reply, BaseException) else c.reply
        kw = {"none": {}, "Headers": {"headers": own}, "dict": {"headers": plain}}[c.given]
        if c.timeout:
            kw["timeout_ms"] = c.timeout
        if c.get:
            kw["use_get"] = True
        with ResponseMetadata() as md:
            k, e, got, _ = exchange(h, mode, proto, c.kind, None, request=[request[who]], cl=cl, method=method(c.kind, "NO_SIDE_EFFECTS"), **kw)
        return k, e, got, list(h.call(list, h.call(md.headers.allitems))), list(h.call(list, h.call(md.trailers.allitems))), wire.requests[-1] if wire.requests else None
    w1, c1 = client()
    call(w1, c1, a, "A")
    h.check("C22.client_pairs: the caller's headers are not modified", same_pairs(h, list(h.call(list, h.call(own.allitems))), [("x", value), ("x", "2"), ("y", "3")]) and same_pairs(h, list(plain.items()), [("x", value)]))
    k, e, got, hs, ts, rq = call(w1, c1, b, "B")
    w2, c2 = client()
    k2, e2, got2, hs2, ts2, rq2 = call(w2, c2, b, "B")
    h.cover("a pair")
    h.check("C22.client_pairs: the same outcome", k == k2 and same_error(h, e, e2))
    h.check("C22.client_pairs: the same messages", same_list(h, got, got2))
    h.check("C22.client_pairs: the same response headers", same_pairs(h, hs, hs2))
    h.check("C22.client_pairs: the same response trailers", same_pairs(h, ts, ts2))
    h.check("C22.client_pairs: the same request", (rq is None and rq2 is None) or rq is not None and rq2 is not None and rq[0] == rq2[0] and h.test(h.eq(rq[1], rq2[1])) and same_pairs(h, list(rq[2].items()), list(rq2[2].items())))
    h.check("C22.client_pairs: the caller's collections are not modified", len(cs) == 1)
