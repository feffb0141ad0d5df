"""Full-stack drivers: the real servers and clients in a stub environment, in both modes.

Codec, compression, transport and handler are stubs; everything in between is the code of
/repo.  In concrete mode the stubs are executable, so that counterexamples can be replayed."""
import json

from pyvc.harness import *
from targets.kit import *

if SYMBOLIC:
    from targets.env import *
    from pyvc.models import ASSUMPTIONS, used

    ASSUMPTIONS["small"] = "what goes into one frame is shorter than 4 GiB (a frame cannot hold more)"


# ------------------------------------------------------------------ messages and codecs
class CMsg:
    """A concrete message."""

    def __init__(self, b=b""):
        self.b = bytes(b)

    def __eq__(self, o):
        return isinstance(o, CMsg) and o.b == self.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return f"CMsg({self.b!r})"


class CCodec:
    def __init__(self, name="proto"):
        self._n = name

    def name(self):
        return self._n

    def encode(self, m):
        return m.b

    def decode(self, data, cls):
        return CMsg(data)


class CComp:
    def __init__(self, name="gzip"):
        self._n = name

    def name(self):
        return self._n

    def compress(self, b):
        return b"Z" + bytes(b)

    def decompress(self, b):
        b = bytes(b)
        if b[:1] != b"Z":
            raise ValueError("not compressed data")
        return b[1:]


def codec(h, name="proto", may_fail=False, huge=False):
    """The codec; its messages are shorter than 2 GiB unless huge (a frame cannot hold more)."""
    if not h.symbolic:
        return CCodec(name)
    c = CodecStub(name, may_fail)
    if not huge:
        h.ex.data["small"] = True
    return c


def compression(h, name="gzip", may_fail=True):
    return CompressionStub(name, may_fail) if h.symbolic else CComp(name)


def message(h, name):
    if h.symbolic:
        return h.msg(name)
    return CMsg(name.encode())


def encoded(h, m):
    """What the codec makes of a message."""
    return SymBytes(encode_e(m)) if h.symbolic else m.b


def decoded(h, b):
    return MsgVal(decode_e(V.bexpr(b))) if h.symbolic else CMsg(b)


def frame(h, flag, payload):
    """An envelope."""
    if h.symbolic:
        x = V.bexpr(payload)
        return V.mkbytes(V.concat(V.simp(z3.StrFromCode(V.iexp(flag))) if is_sym(flag) else V.sval(chr(flag)), V.enc32(V.simp(V.slen(x))), x))
    return bytes([flag]) + len(payload).to_bytes(4, "big") + payload


# ------------------------------------------------------------------ servers
def endpoint(h, mode, kind, fn, m=None):
    from connectrpc.server import Endpoint, EndpointSync

    c = Endpoint if mode == "async" else EndpointSync
    return h.call(getattr(c, kind), method=m or method(kind), function=fn)


def make_app(h, mode, endpoints, codecs=None, compressions=(), **kw):
    from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication

    if mode == "async":
        class App(ConnectASGIApplication):
            _pv_ok = True
            path = "/p.S"

        eps = h.dict(endpoints)
        return h.new(App, service=object(), endpoints=lambda s: eps, codecs=codecs or [codec(h)], compressions=compressions, **kw)

    class App(ConnectWSGIApplication):
        _pv_ok = True
        path = "/p.S"

    return h.new(App, endpoints=h.dict(endpoints), codecs=codecs or [codec(h)], compressions=compressions, **kw)


class Exchange:
    """What a server did with one request."""

    def __init__(self):
        self.starts = []
        self.status = None
        self.headers = []
        self.body = []
        self.trailers = []
        self.completed = 0
        self.raised = None
        self.log = []

    def header(self, h, name):
        return [v for k, v in self.headers if h.test(h.eq(k, name))]

    def trailer(self, h, name):
        return [v for k, v in self.trailers if h.test(h.eq(k, name))]


def text(h, x):
    return h.call(x.decode) if not isinstance(x, str) else x


def serve(h, mode, app, path="/p.S/M", headers=(), body=(b"",), http_method="POST", query="", send_hook=None, receive=None, extensions=True, scope_extra=None, wsgi_input=None, content_length=None, connected=True, mount=""):
    """One request; `body`: the chunks it comes in."""
    x = Exchange()
    if h.symbolic:
        h.ex.data["event_may_set"] = not connected
    if mode == "async":
        todo = list(body)

        async def default_receive():
            if todo:
                b = todo.pop(0)
                return h.dict([("type", "http.request"), ("body", b), ("more_body", bool(todo))])
            return h.dict([("type", "http.disconnect")])

        async def send(msg):
            t = msg["type"]
            x.log.append(t)
            if send_hook is not None:
                r = send_hook(msg)
                if inspect_coro(r):
                    await r
            if t == "http.response.start":
                x.starts.append(msg["status"])
                x.status = msg["status"]
                x.headers = [(text(h, k), text(h, v)) for k, v in msg["headers"]]
                x.announced = msg["trailers"] if "trailers" in msg else False
            elif t == "http.response.body":
                x.body.append(msg["body"])
                if not (msg["more_body"] if "more_body" in msg else False):
                    x.completed += 1
            elif t == "http.response.trailers":
                x.trailers += [(text(h, k), text(h, v)) for k, v in msg["headers"]]

        def raw(v):
            return h.call(v.encode) if isinstance(v, str) else v
        scope = [("type", "http"), ("method", http_method), ("path", path), ("root_path", mount), ("scheme", "http"),
                 ("query_string", raw(query)), ("headers", h.list(*[(raw(k), raw(v)) for k, v in headers])),
                 ("extensions", h.dict([("http.response.trailers", h.dict())] if extensions else []))] + list(scope_extra or ())
        k, r = h.outcome(app, h.dict(scope), receive or default_receive, send)
        x.raised = r if k == "exc" else None
        return x

    env = [("PATH_INFO", path), ("SCRIPT_NAME", mount), ("REQUEST_METHOD", http_method), ("QUERY_STRING", query),
           ("wsgi.url_scheme", "http"), ("wsgi.input", wsgi_input or WsgiInput(h, list(body))), ("wsgi.errors", Sink())]
    fields = {}
    for k, v in headers:
        u = k.upper().replace("-", "_")
        fields.setdefault(u if u in ("CONTENT_TYPE", "CONTENT_LENGTH") else "HTTP_" + u, []).append(v)
    # CGI has one value per name
    env += [(k, vs[0] if len(vs) == 1 else h.call(",".join, h.list(*vs))) for k, vs in fields.items()]
    if content_length is not None:
        env.append(("CONTENT_LENGTH", content_length))
    if extensions:
        env.append(("wsgi.ext.http.send_trailers", lambda ts: (x.log.append("trailers"), x.trailers.extend(list(ts)))))

    def start_response(status, hs, exc_info=None):
        x.log.append("start")
        x.starts.append(status)
        x.status = int(status[:3]) if not (h.symbolic and is_sym(status)) else status
        x.headers = list(hs)

    def run():
        it = h.call(app, h.dict(env), start_response)
        try:
            for b in it:
                x.log.append("body")
                x.body.append(b)
        finally:
            c = getattr(it, "close", None)
            if c is not None:
                c()
        x.completed += 1

    k, r = h.outcome(run)
    x.raised = r if k == "exc" else None
    return x


class Sink:
    def write(self, s):
        pass

    def flush(self):
        pass


class WsgiInput(Ghost):
    """wsgi.input over given chunks, whatever sizes are asked for."""

    def __init__(self, h, chunks):
        self.h, self.chunks = h, chunks

    def read(self, n=-1):
        while self.chunks:
            b = self.chunks.pop(0)
            if self.h.symbolic and is_sym(b) or len(b):
                return b
        return b""


# ------------------------------------------------------------------ clients
class Response_(Ghost):
    """A streaming response of the HTTP client."""

    def __init__(self, h, status, headers, chunks, trailers, fault=None, close_fault=None):
        from pyqwest import Headers as HTTPHeaders

        self.h, self.status = h, status
        self.headers = h.new(HTTPHeaders, headers)
        self.trailers = h.new(HTTPHeaders, trailers)
        self.chunks = chunks
        self.fault = fault
        self.close_fault = close_fault

    async def _a(self):
        for c in self.chunks:
            yield c
        if self.fault is not None:
            raise self.fault

    def _s(self):
        yield from self.chunks
        if self.fault is not None:
            raise self.fault


class AResponse(Response_):
    @property
    def content(self):
        return self.chunks.apieces() if isinstance(self.chunks, Ghost) else self._a()

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        if self.close_fault is not None:
            raise self.close_fault


class SResponse(Response_):
    @property
    def content(self):
        return self.chunks.pieces() if isinstance(self.chunks, Ghost) else self._s()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.close_fault is not None:
            raise self.close_fault


class Wire(Ghost):
    """The HTTP client: records requests, answers with `reply` (a dict, or an exception)."""

    def __init__(self, h, mode, reply):
        self.h, self.mode, self.reply = h, mode, reply
        self.requests = []

    def _full(self, how, url, headers, content):
        from pyqwest import FullResponse
        from pyqwest import Headers as HTTPHeaders

        h = self.h
        self.requests.append((how, url, headers, content))
        r = self.reply(self.requests[-1]) if callable(self.reply) else self.reply
        if isinstance(r, BaseException):
            raise r
        return h.new(FullResponse, status=r.get("status", 200), headers=h.new(HTTPHeaders, r.get("headers", [])), content=r.get("body", b""), trailers=h.new(HTTPHeaders, r.get("trailers", [])))

    def _stream(self, how, url, headers, content):
        self.requests.append((how, url, headers, content))
        r = self.reply(self.requests[-1]) if callable(self.reply) else self.reply
        if isinstance(r, BaseException):
            raise r
        c = AResponse if self.mode == "async" else SResponse
        return c(self.h, r.get("status", 200), r.get("headers", []), r.get("chunks", [r["body"]] if "body" in r else []), r.get("trailers", []), r.get("fault"), r.get("close_fault"))

    def post(self, url, headers=None, content=None, timeout=None):
        return self._maybe("POST", url, headers, content)

    def get(self, url, headers=None, timeout=None):
        return self._maybe("GET", url, headers, None)

    def _maybe(self, how, url, headers, content):
        if self.mode == "sync":
            return self._full(how, url, headers, content)

        async def f():
            return self._full(how, url, headers, content)
        return f()

    def stream(self, method="POST", url=None, headers=None, content=None, timeout=None):
        return self._stream(method, url, headers, content)


def exchange(h, mode, proto, kind, reply, request=None, collect=None, cl=None, **kw):
    """One client call.  ('ok', responses) or ('exc', exception, responses so far)."""
    ckw = {k: kw.pop(k) for k in list(kw) if k in ("codec", "accept_compression", "send_compression", "read_max_bytes", "interceptors", "timeout_default")}
    if "timeout_default" in ckw:
        ckw["timeout_ms"] = ckw.pop("timeout_default")
    wire = Wire(h, mode, reply)
    if cl is None:
        ckw.setdefault("codec", codec(h))
        cl = make_client(h, mode, proto, http_client=wire, **ckw)
    if request is None:
        request = [message(h, "request")]
    if kind in ("unary", "server_stream"):
        req = request[0]
    elif mode == "sync":
        req = iter(request)
    else:
        async def gen():
            for r in request:
                yield r
        req = gen()
    kw.setdefault("method", method(kind))
    got = []

    def run():
        r = h.call(getattr(cl, "execute_" + kind), request=req, **kw)
        if mode == "async":
            if kind in ("unary", "client_stream"):
                got.append(h.drive(r))
                return

            async def drain():
                async for x in r:
                    got.append(x)
            h.drive(drain())
        elif kind in ("unary", "client_stream"):
            got.append(r)
        else:
            for x in r:
                got.append(x)

    k, e = h.outcome(run)
    return k, e, got, wire


# ------------------------------------------------------------------ whole RPCs
CT = {"connect": "application/connect+proto", "grpc": "application/grpc+proto", "grpc-web": "application/grpc-web+proto"}
END = {"connect": 2, "grpc-web": 128}


def success(h, proto):
    """What ends a successful response (gRPC: nothing in the body)."""
    if proto == "connect":
        return frame(h, 2, b"{}")
    if proto == "grpc-web":
        return frame(h, 128, b"grpc-status: 0\r\n")
    return b""


def collecting(h, mode, kind, calls, reply=None):
    """A handler of any kind that notes the messages it gets and answers one."""
    def response():
        return reply if reply is not None else message(h, "response")
    if mode == "async":
        if kind == "unary":
            async def fn(request, ctx):
                calls.append(request)
                return response()
        elif kind == "server_stream":
            async def fn(request, ctx):
                calls.append(request)
                yield response()
        elif kind == "client_stream":
            async def fn(request, ctx):
                async for m in request:
                    calls.append(m)
                return response()
        else:
            async def fn(request, ctx):
                async for m in request:
                    calls.append(m)
                yield response()
    else:
        if kind == "unary":
            def fn(request, ctx):
                calls.append(request)
                return response()
        elif kind == "server_stream":
            def fn(request, ctx):
                calls.append(request)
                yield response()
        elif kind == "client_stream":
            def fn(request, ctx):
                for m in request:
                    calls.append(m)
                return response()
        else:
            def fn(request, ctx):
                for m in request:
                    calls.append(m)
                yield response()
    return fn


def frames_of(h, x):
    """The frames of a response body that is written one frame per piece: [(flag, payload)]"""
    out = []
    for b in x.body:
        if not h.test(h.len(b) > 0):
            continue
        n = h.call(int.from_bytes, b[1:5], "big")
        h.check("a piece of the body is a frame", h.eq(h.len(b), n + 5))
        out.append((b[0], b[5:]))
    return out


def outcome_code(h, proto, x):
    """How a streaming response ends: the Connect code or None, or the grpc-status."""
    import json

    if proto == "grpc":
        t = x.trailer(h, "grpc-status") + x.header(h, "grpc-status")
        h.check("one grpc-status", len(t) == 1)
        return t[0]
    fs = frames_of(h, x)
    ends = [p for f, p in fs if h.test(h.eq(f, END[proto])) or h.test(h.eq(f, END[proto] + 1))]
    h.check("one end-of-stream frame, at the end", len(ends) == 1 and h.test(h.or_(h.eq(fs[-1][0], END[proto]), h.eq(fs[-1][0], END[proto] + 1))))
    data = ends[0]
    if proto == "connect":
        d = h.call(json.loads, data)
        return d["error"]["code"] if "error" in d else None
    for line in h.call(h.call(data.decode).split, "\r\n"):
        if h.test(h.call(line.startswith, "grpc-status:")):
            return h.call(line.removeprefix("grpc-status:").strip) if not h.symbolic else h.call(h.call(line.removeprefix, "grpc-status:").strip)
    return None


class Frames(Ghost):
    """A stream of any number of messages, then an end; one frame to the piece (that streams
    mean the same in any pieces is C01).

    ends: how it may end.  "whole": after the last message; "cut": within a frame; "fault":
    with the transport's error; others: with a frame, by name."""

    _terms = ("n", "left", "last")
    _pv_env_iter = True

    def __init__(self, h, ends, packed=False, on_message=None, proto=None):
        self.h = h
        self.proto = proto
        self.n = 0
        self.left = b""
        self.last = b""
        self.state = None
        self.ends = ends
        self.packed = packed
        self.on_message = on_message

        def cut(L, st):
            n = V.slen(V.bexpr(self.left))
            return z3.And(n > 0, n < 5) if self.state == "cut" else n == 0
        h.invariant("a stream is cut within a frame's prefix", cut)
        self.some = False
        # packed="any": whether the last message was marked as compressed, and whether any was
        self.marked = False
        self.any_marked = False
        h.invariant("the number of messages", lambda L, st: V.iexp(self.n) >= 1 if self.some else V.iexp(self.n) == 0)

    def piece(self):
        """The next piece; None at the end."""
        h = self.h
        if self.state is not None:
            if self.state == "fault":
                raise OSError("connection lost")
            return None
        if h.ex.choice(2, "more") == 0:
            p = h.bytes("payload")
            V.fact(V.slen(V.bexpr(p)) < 2**32)
            self.n = self.n + 1 if not is_sym(self.n) else SymInt(V.simp(self.n.e + 1))
            self.last = p
            self.some = True
            f = 1 if self.packed else 0
            if self.packed == "any":
                f = h.ex.choice(2, "marked")
                self.marked = f == 1
                if f and self.track_marks:
                    self.any_marked = True
            if self.proto is not None:
                # any flags that do not say it is an end-of-stream frame
                g = h.int("flags")
                V.fact(z3.And(V.iexp(g) >= 0, V.iexp(g) < 256, V.iexp(g) % 2 == f))
                if self.proto in END:
                    V.fact((V.iexp(g) / END[self.proto]) % 2 == 0)
                f = g
            if self.packed is True:
                return frame(h, f, SymBytes(uf("compress_gzip", V.S, V.S)(V.bexpr(p))))
            return frame(h, f, p)
        names = list(self.ends)
        k = names[h.ex.choice(len(names), "end")]
        self.state = k
        if k == "fault":
            raise OSError("connection lost")
        if k == "cut":
            b = h.bytes("rest")
            V.fact(V.slen(V.bexpr(b)) > 0)
            V.fact(V.slen(V.bexpr(b)) < 5)
            self.left = b
            return b
        b = self.ends[k]
        return b if b else None

    track_marks = False

    # few: the consumer stops after a few messages, so that no loop need be cut
    few = False

    def pieces(self):
        if not self.few:
            return self

        def gen():
            while True:
                b = self.piece()
                if b is None:
                    return
                yield b
        return gen()

    def apieces(self):
        if not self.few:
            return self

        async def gen():
            while True:
                b = self.piece()
                if b is None:
                    return
                yield b
        return gen()

    # an iterator of pieces
    def __iter__(self):
        return self

    def __next__(self):
        b = self.piece()
        if b is None:
            raise StopIteration
        return b

    def __aiter__(self):
        return self

    async def __anext__(self):
        b = self.piece()
        if b is None:
            raise StopAsyncIteration
        return b

    # wsgi.input
    def read(self, n=-1):
        b = self.piece()
        return b"" if b is None else b

    # ASGI receive
    async def receive(self):
        h = self.h
        if self.state is not None:
            return h.dict([("type", "http.disconnect")])
        try:
            b = self.piece()
        except OSError:
            return h.dict([("type", "http.disconnect")])
        return h.dict([("type", "http.request"), ("body", b"" if b is None else b), ("more_body", self.state is None)])


class Responses(Ghost):
    """What a streaming handler yields: any number of messages, then an end by name."""

    _terms = ("n",)
    _pv_env_iter = True

    def __init__(self, h, ends):
        self.h, self.ends = h, ends
        self.n = 0
        self.state = None
        self.closed = 0

    def step(self):
        h = self.h
        if self.state is not None:
            return None
        if h.ex.choice(2, "yields") == 0:
            self.n = self.n + 1 if not is_sym(self.n) else SymInt(V.simp(self.n.e + 1))
            return h.msg("response")
        self.state = h.choice("ends", self.ends)
        finish(h, self.state)
        return None

    def __iter__(self):
        return self

    def __next__(self):
        m = self.step()
        if m is None:
            raise StopIteration
        return m

    def __aiter__(self):
        return self

    async def __anext__(self):
        m = self.step()
        if m is None:
            raise StopAsyncIteration
        return m

    def close(self):
        self.closed += 1

    async def aclose(self):
        self.closed += 1


class HandlerError(Exception):
    """An exception the library knows nothing about."""


def finish(h, how):
    """The ends of a handler."""
    import asyncio

    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    if how == "rpc_error":
        raise h.new(ConnectError, Code.ABORTED, h.str("message"))
    if how == "error":
        raise HandlerError("handler")
    if how == "cancelled":
        raise asyncio.CancelledError


class Monitor(Ghost):
    """The HTTP server's side of a streaming response: an automaton over what the application
    sends, for any number of messages."""

    _terms = ("n",)

    def __init__(self, h, prop, proto, may_fail=False):
        self.h, self.prop, self.proto, self.may_fail = h, prop, proto, may_fail
        self.phase = "none"
        self.announced = False
        self.n = 0
        self.ended = False
        self.failed = False
        self.end_payload = None
        self.status_trailer = None
        self.status = None

    def ok(self, what, c):
        self.h.check(f"{self.prop}: {what}", c)

    def headers(self, hs):
        """The headers of the response."""

    def start(self, status, announced):
        self.ok("a response is started once", self.phase == "none")
        self.phase = "started"
        self.status = status
        if self.proto is not None:
            self.ok("a streaming response is HTTP 200", self.h.eq(status, 200))
            self.ok("trailers are announced exactly for gRPC", bool(announced) == (self.proto == "grpc"))
        self.announced = bool(announced)

    def piece(self, b):
        h = self.h
        self.ok("the body comes after the start, and nothing after its end", self.phase == "started")
        if not h.test(h.len(b) > 0) or self.proto is None:
            return
        self.ok("nothing follows the end of the stream", not self.ended)
        flag = b[0]
        size = h.call(int.from_bytes, b[1:5], "big")
        self.ok("a piece of the body is a frame", h.eq(h.len(b), size + 5))
        end = END.get(self.proto)
        if end is not None and h.test(V.wrapb((V.iexp(flag) / end) % 2 == 1)):
            self.ended = True
            self.end_payload = b[5:]
        else:
            self.n = self.n + 1 if not is_sym(self.n) else SymInt(V.simp(self.n.e + 1))

    def done(self):
        self.ok("a response is completed once", self.phase == "started")
        self.phase = "complete"

    def trailers(self, items):
        h = self.h
        self.ok("trailers come once, after the body", self.phase == ("complete" if self.mode == "async" else "started") and self.status_trailer is None)
        self.ok("trailers are sent only where they were announced", self.announced)
        self.phase = "trailers"
        st = [v for k, v in items if h.test(h.eq(k, "grpc-status"))]
        self.ok("one grpc-status", len(st) == 1)
        self.status_trailer = st[0]

    async def send(self, m):
        h = self.h
        if self.may_fail and h.ex.choice(2, "send_fails") == 1:
            self.failed = True
            raise OSError("connection closed")
        t = m["type"]
        if t == "http.response.start":
            self.headers([(text(h, k), text(h, v)) for k, v in m["headers"]])
            self.start(m["status"], m["trailers"] if "trailers" in m else False)
        elif t == "http.response.body":
            if "body" in m:
                self.piece(m["body"])
            if not ("more_body" in m and m["more_body"]):
                self.done()
        else:
            self.ok("a known message", t == "http.response.trailers")
            self.trailers([(text(h, k), text(h, v)) for k, v in m["headers"]])

    def well_formed(self):
        """What a completed response ends with."""
        if self.proto == "grpc":
            self.ok("gRPC ends with trailers", self.phase == "trailers")
        else:
            self.ok("a response is complete", self.phase == "complete")
            self.ok("a stream ends with one end-of-stream frame", self.ended)

    def success(self):
        """Whether the terminator says the RPC succeeded; None when there is none."""
        import json

        h = self.h
        if self.proto == "grpc":
            return None if self.status_trailer is None else h.test(h.eq(self.status_trailer, "0"))
        if not self.ended:
            return None
        if self.proto == "connect":
            return "error" not in h.call(json.loads, self.end_payload)
        for line in h.call(h.call(self.end_payload.decode).split, "\r\n"):
            if h.test(h.call(line.startswith, "grpc-status:")):
                return h.test(h.eq(h.call(h.call(line.removeprefix, "grpc-status:").strip), "0"))
        return None


def serve_stream(h, mode, app, mon, headers, receive=None, wsgi_input=None, path="/p.S/M", connected=True, http_method="POST", query="", abandon=False):
    """One request, watched by a monitor.  ('ok' | 'exc', value)"""
    h.ex.data["event_may_set"] = not connected
    object.__setattr__(mon, "mode", mode)
    if mode == "async":
        def raw(v):
            return h.call(v.encode) if isinstance(v, str) else v
        scope = h.dict([("type", "http"), ("method", http_method), ("path", path), ("root_path", ""), ("scheme", "http"),
                        ("query_string", raw(query)), ("headers", h.list(*[(raw(k), raw(v)) for k, v in headers])),
                        ("extensions", h.dict([("http.response.trailers", h.dict())]))])
        return h.outcome(app, scope, receive, mon.send)
    env = [("PATH_INFO", path), ("SCRIPT_NAME", ""), ("REQUEST_METHOD", http_method), ("QUERY_STRING", query),
           ("wsgi.url_scheme", "http"), ("wsgi.input", wsgi_input), ("wsgi.errors", Sink()),
           ("wsgi.ext.http.send_trailers", lambda ts: mon.trailers(list(ts)))]
    for k, v in headers:
        u = k.upper().replace("-", "_")
        env.append((u if u in ("CONTENT_TYPE", "CONTENT_LENGTH") else "HTTP_" + u, v))

    def start_response(status, hs, exc_info=None):
        st = status if h.symbolic and is_sym(status) else int(status[:3])
        # gRPC responses are those with trailers
        ct = [v for k, v in hs if k.lower() == "content-type"]
        # WSGI has no announcement of trailers; they are gRPC's
        if mon.proto is None:
            c = [v for k, v in hs if h.test(h.eq(k, "content-type"))]
            grpc = h.test(h.or_(*[h.or_(h.eq(v, "application/grpc"), h.call(v.startswith, "application/grpc+")) for v in c])) if c else False
        else:
            grpc = mon.proto == "grpc"
        mon.headers(list(hs))
        mon.start(st, grpc)

    def run():
        it = h.call(app, h.dict(env), start_response)

        def on(b):
            mon.wsgi_piece(b)
        try:
            h.consume(iter(it), on, "wsgi-server")
        finally:
            c = getattr(it, "close", None)
            if c is not None:
                c()
        if mon.phase != "trailers":
            mon.done()
    return h.outcome(run)


def _wsgi_piece(self, b):
    h = self.h
    if self.phase == "trailers":
        self.ok("nothing follows the trailers", h.eq(h.len(b), 0))
        return
    self.piece(b)


if SYMBOLIC:
    Monitor.wsgi_piece = _wsgi_piece


# ------------------------------------------------------------------ a client and a server
def linked(h, server_mode, app, comps=(), seen=None, pieces=None):
    """An HTTP transport between a client and an application (as `reply` of Wire).

    Like the HTTP client, it undoes the compression of whole responses."""
    by = {c.name(): c for c in comps}

    def collect(content):
        out = []
        if hasattr(content, "__aiter__"):
            async def f():
                async for b in content:
                    out.append(b)
            h.drive(f())
        else:
            out.extend(content)
        return out

    def reply(req):
        how, url, headers, content = req
        url = h.call(url.removeprefix, "http://h.example")
        path, _, query = h.call(url.partition, "?")
        whole = content is None or isinstance(content, (bytes, bytearray)) or h.symbolic and is_sym(content)
        body = [b""] if content is None else [content] if whole else collect(content)
        x = serve(h, server_mode, app, path=path, headers=list(headers.items()), body=body or [b""], http_method=how, query=query)
        if seen is not None:
            seen.append((req, body, x))
        r = {"status": x.status, "headers": x.headers, "trailers": x.trailers}
        if whole:
            enc = x.header(h, "content-encoding")
            data = h.cat(*x.body) if x.body else b""
            if enc and enc[0] in by:
                data = h.call(by[enc[0]].decompress, data)
            r["body"] = data
        else:
            r["chunks"] = x.body
        return r
    return reply
