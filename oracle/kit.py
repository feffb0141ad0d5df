"""Programmable services, raw ASGI/WSGI drivers and in-process transports for the real code."""
import asyncio
import contextlib
import gzip
import io
import json
import struct
from urllib.parse import urlsplit, unquote

from pyqwest import FullResponse
from pyqwest import Headers as HTTPHeaders

from connectrpc.client import ConnectClient, ConnectClientSync, ResponseMetadata
from connectrpc.code import Code
from connectrpc.errors import ConnectError, ErrorDetail
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers, RequestContext
from connectrpc.server import (ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync)

P = ProtocolType
PROTOS = [P.CONNECT, P.GRPC, P.GRPC_WEB]
KINDS = ["unary", "client", "server", "bidi"]
MODES = ["async", "sync"]


class M:
    """A message: bytes.  Falsy when empty, as protobuf messages are not, to expose truth tests."""

    __slots__ = ("b",)

    def __init__(self, b=b""):
        self.b = bytes(b)

    def __eq__(self, o):
        return type(o) is type(self) and o.b == self.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return f"M({self.b[:40]!r}{'...' + str(len(self.b)) if len(self.b) > 40 else ''})"

    def __len__(self):
        return len(self.b)


class MO(M):
    """Output messages."""

    __slots__ = ()


class CodecErr(Exception):
    pass


class RawCodec:
    def __init__(self, name="raw"):
        self._n = name
        self.decoded = []
        self.fail_encode = lambda m: False
        self.fail_decode = lambda b: False

    def name(self):
        return self._n

    def encode(self, message):
        if self.fail_encode(message):
            raise CodecErr("cannot encode")
        return bytes(message.b)

    def decode(self, data, message_class):
        data = bytes(data)
        self.decoded.append(data)
        if self.fail_decode(data):
            raise CodecErr("cannot decode")
        return message_class(data)


class XorCompression:
    """A compression whose output never equals its input and that detects foreign data."""

    def __init__(self, name="xor"):
        self._n = name

    def name(self):
        return self._n

    def compress(self, data):
        return b"X" + self._n.encode() + bytes(b ^ 0x5A for b in bytes(data))

    def decompress(self, data):
        data = bytes(data)
        p = b"X" + self._n.encode()
        if not data.startswith(p):
            raise ValueError("not compressed by " + self._n)
        return bytes(b ^ 0x5A for b in data[len(p):])


class Grow:
    """Decompresses to something bigger (its first byte times)."""

    def name(self):
        return "grow"

    def compress(self, data):
        return b"G" + bytes(data)

    def decompress(self, data):
        data = bytes(data)
        if data[:1] == b"G":
            return data[1:]
        return b"z" * int(data.decode())


LEVEL = {"unary": IdempotencyLevel.NO_SIDE_EFFECTS}
NAMES = {"unary": "Unary", "client": "Client", "server": "Server", "bidi": "Bidi"}


def method(kind, level=None, service="p.S", name=None):
    return MethodInfo(name=name or NAMES[kind], service_name=service, input=M, output=MO,
                      idempotency_level=level or LEVEL.get(kind, IdempotencyLevel.UNKNOWN))


class Service:
    """beh(reqs, ctx): a generator of responses; `early`: it runs before the requests are read."""

    def __init__(self, beh=None, early=False):
        self.beh = beh or (lambda reqs, ctx: iter([MO(b"ok")]))
        self.early = early
        self.calls = []

    def _enter(self, kind, ctx):
        c = dict(kind=kind, reqs=[], complete=None, ctx=ctx, headers=list(ctx.request_headers.allitems()),
                 timeout=ctx.timeout_ms, req_error=None, closed=False, http_method=ctx.http_method)
        self.calls.append(c)
        return c

    # async
    async def _aread(self, c, it):
        try:
            async for m in it:
                c["reqs"].append(m)
            c["complete"] = True
        except BaseException as e:
            c["complete"] = False
            c["req_error"] = e
            raise

    async def a_unary(self, r, ctx):
        c = self._enter("unary", ctx)
        c["reqs"].append(r)
        for x in self.beh([r], ctx):
            return x

    async def a_client(self, it, ctx):
        c = self._enter("client", ctx)
        await self._aread(c, it)
        for x in self.beh(c["reqs"], ctx):
            return x

    async def a_server(self, r, ctx):
        c = self._enter("server", ctx)
        c["reqs"].append(r)
        try:
            for x in self.beh([r], ctx):
                yield x
                await asyncio.sleep(0)
        finally:
            c["closed"] = True

    async def a_bidi(self, it, ctx):
        c = self._enter("bidi", ctx)
        try:
            if self.early:
                for x in self.beh([], ctx):
                    yield x
                await self._aread(c, it)
            else:
                await self._aread(c, it)
                for x in self.beh(c["reqs"], ctx):
                    yield x
        finally:
            c["closed"] = True

    # sync
    def _read(self, c, it):
        try:
            for m in it:
                c["reqs"].append(m)
            c["complete"] = True
        except BaseException as e:
            c["complete"] = False
            c["req_error"] = e
            raise

    def s_unary(self, r, ctx):
        c = self._enter("unary", ctx)
        c["reqs"].append(r)
        for x in self.beh([r], ctx):
            return x

    def s_client(self, it, ctx):
        c = self._enter("client", ctx)
        self._read(c, it)
        for x in self.beh(c["reqs"], ctx):
            return x

    def s_server(self, r, ctx):
        c = self._enter("server", ctx)
        c["reqs"].append(r)
        try:
            yield from self.beh([r], ctx)
        finally:
            c["closed"] = True

    def s_bidi(self, it, ctx):
        c = self._enter("bidi", ctx)
        try:
            if self.early:
                yield from self.beh([], ctx)
                self._read(c, it)
            else:
                self._read(c, it)
                yield from self.beh(c["reqs"], ctx)
        finally:
            c["closed"] = True


def aendpoints(svc, **kw):
    f = {"unary": Endpoint.unary, "client": Endpoint.client_stream, "server": Endpoint.server_stream,
         "bidi": Endpoint.bidi_stream}
    return {f"/p.S/{NAMES[k]}": f[k](method=method(k), function=getattr(svc, "a_" + k)) for k in KINDS}


def sendpoints(svc):
    f = {"unary": EndpointSync.unary, "client": EndpointSync.client_stream, "server": EndpointSync.server_stream,
         "bidi": EndpointSync.bidi_stream}
    return {f"/p.S/{NAMES[k]}": f[k](method=method(k), function=getattr(svc, "s_" + k)) for k in KINDS}


class AApp(ConnectASGIApplication):
    path = "/p.S"


class SApp(ConnectWSGIApplication):
    path = "/p.S"


def asgi(svc, **kw):
    kw.setdefault("codecs", [RawCodec()])
    return AApp(service=svc, endpoints=aendpoints, **kw)


def wsgi(svc, **kw):
    kw.setdefault("codecs", [RawCodec()])
    return SApp(endpoints=sendpoints(svc), **kw)


# ----------------------------------------------------------------- frames
def frame(payload, flag=0):
    return struct.pack(">BI", flag, len(payload)) + payload


def frames(body):
    out, i = [], 0
    while len(body) - i >= 5:
        f, n = struct.unpack(">BI", body[i:i + 5])
        if len(body) - i - 5 < n:
            break
        out.append((f, body[i + 5:i + 5 + n]))
        i += 5 + n
    return out, body[i:]


def cut(data, rnd, empties=True):
    """A random way to split data into chunks."""
    style = rnd.randrange(6)
    if style == 0:
        out = [data]
    elif style == 1 and len(data) < 1500:
        out = [data[i:i + 1] for i in range(len(data))]
    else:
        out, i = [], 0
        while i < len(data):
            n = rnd.choice([1, 2, 3, 4, 5, 6, 7, 9, 17, 64, 1000])
            out.append(data[i:i + n])
            i += n
    if empties and rnd.random() < 0.5:
        for _ in range(rnd.randrange(1, 4)):
            out.insert(rnd.randrange(len(out) + 1), b"")
    return out


# ----------------------------------------------------------------- raw drivers
class Res:
    """What the server did with one request."""

    def __init__(self):
        self.events = []  # ("start", status, headers, trailers_announced) ("body", data, more) ("trailers", headers, more)
        self.exc = None
        self.problems = []

    @property
    def starts(self):
        return [e for e in self.events if e[0] == "start"]

    @property
    def status(self):
        s = self.starts
        return s[0][1] if s else None

    @property
    def headers(self):
        s = self.starts
        return s[0][2] if s else []

    def header(self, n):
        v = [b for a, b in self.headers if a.lower() == n]
        return v[0] if v else None

    def allh(self, n):
        return [b for a, b in self.headers if a.lower() == n]

    @property
    def body(self):
        return b"".join(e[1] for e in self.events if e[0] == "body")

    @property
    def trailers(self):
        t = [e for e in self.events if e[0] == "trailers"]
        return [x for e in t for x in e[1]]

    def __repr__(self):
        return f"Res(status={self.status}, headers={self.headers}, body={self.body[:300]!r}, trailers={self.trailers}, exc={self.exc!r}, problems={self.problems})"

    def error_json(self):
        try:
            return json.loads(self.body)
        except Exception:
            return None

    # ASGI / WSGI well-formedness
    def wellformed(self, asgi=True, aborted=False):
        out = list(self.problems)
        n = len(self.starts)
        if n != 1:
            out.append(f"{n} response starts")
            return out
        if self.events[0][0] != "start":
            out.append("the body comes before the start")
        ann = self.events[0][3]
        done = False
        trl = False
        for e in self.events[1:]:
            if e[0] == "body":
                if done:
                    out.append("body after the end of the body")
                done = not e[2]
            elif e[0] == "trailers":
                if not done and asgi:
                    out.append("trailers before the end of the body")
                if trl:
                    out.append("trailers twice")
                trl = not e[2]
                if ann is False:
                    out.append("trailers that were not announced")
        if not aborted:
            if not done:
                out.append("the body is not ended")
            if ann and not trl:
                out.append("announced trailers are missing")
        return out


async def raw_asgi(app, *, method="POST", path="/p.S/Unary", headers=(), chunks=(b"",), events=None, query=b"",
                   trailers_ext=True, root_path="", client=("1.2.3.4", 5), scheme="http", on_send=None,
                   timeout=20.0, hang_after=True, extra=None):
    res = Res()
    if events is None:
        chunks = list(chunks) or [b""]
        events = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]
    evs = list(events)
    over = asyncio.Event()

    async def receive():
        if evs:
            e = evs.pop(0)
            if callable(e):
                e = e()
                if asyncio.iscoroutine(e):
                    e = await e
            return e
        if hang_after:
            await over.wait()
        return {"type": "http.disconnect"}

    async def send(m):
        t = m["type"]
        if t == "http.response.start":
            for k, v in m["headers"]:
                if not isinstance(k, bytes) or not isinstance(v, bytes):
                    res.problems.append(f"header is not bytes: {k!r}: {v!r}")
            res.events.append(("start", m["status"],
                               [(bytes(k).decode("latin-1"), bytes(v).decode("utf-8", "replace")) for k, v in m["headers"]],
                               m.get("trailers", False)))
        elif t == "http.response.body":
            if not isinstance(m.get("body", b""), bytes):
                res.problems.append("body is not bytes")
            res.events.append(("body", m.get("body", b""), m.get("more_body", False)))
        elif t == "http.response.trailers":
            res.events.append(("trailers", [(k.decode("latin-1"), v.decode("utf-8", "replace")) for k, v in m["headers"]],
                               m.get("more_trailers", False)))
        else:
            res.problems.append("unknown event " + t)
        if on_send is not None:
            r = on_send(m, len(res.events))
            if asyncio.iscoroutine(r):
                await r

    scope = dict(type="http", path=path, root_path=root_path, method=method, scheme=scheme,
                 headers=[(k.encode("latin-1"), v.encode("utf-8")) for k, v in headers], query_string=query,
                 client=client, extensions={"http.response.trailers": {}} if trailers_ext else {})
    scope.update(extra or {})
    try:
        await asyncio.wait_for(app(scope, receive, send), timeout)
    except asyncio.TimeoutError:
        res.exc = RuntimeError("the application did not finish")
    except (Exception, asyncio.CancelledError) as e:
        res.exc = e
    return res


class WInput:
    """wsgi.input that returns given pieces, never more than asked for."""

    def __init__(self, pieces, fail_at=None):
        self.pieces = [p for p in pieces if p]
        self.reads = []
        self.total = 0

    def read(self, n=-1):
        self.reads.append(n)
        if not self.pieces:
            return b""
        p = self.pieces.pop(0)
        if n is not None and n >= 0 and len(p) > n:
            self.pieces.insert(0, p[n:])
            p = p[:n]
        self.total += len(p)
        return p


def raw_wsgi(app, *, method="POST", path="/p.S/Unary", headers=(), chunks=(b"",), query="", content_length="auto",
             trailers_ext=True, script_name="", scheme="http", input=None, server_protocol=None, extra=None, stop_after=None):
    res = Res()
    env = {"REQUEST_METHOD": method, "PATH_INFO": path, "SCRIPT_NAME": script_name, "QUERY_STRING": query,
           "wsgi.url_scheme": scheme, "wsgi.errors": io.StringIO(), "REMOTE_ADDR": "1.2.3.4", "REMOTE_PORT": "5"}
    inp = input or WInput(chunks)
    env["wsgi.input"] = inp
    if server_protocol:
        env["SERVER_PROTOCOL"] = server_protocol
    joined = {}
    for k, v in headers:
        joined.setdefault(k.lower(), []).append(v)
    for k, v in joined.items():
        v = ",".join(v)
        if k == "content-type":
            env["CONTENT_TYPE"] = v
        elif k == "content-length":
            env["CONTENT_LENGTH"] = v
        else:
            env["HTTP_" + k.upper().replace("-", "_")] = v
    if content_length == "auto":
        if input is None:
            env["CONTENT_LENGTH"] = str(sum(len(c) for c in chunks))
    elif content_length is not None:
        env["CONTENT_LENGTH"] = content_length
    st = {"n": 0, "done": False, "returned": False}
    if trailers_ext:
        def send_trailers(h):
            res.events.append(("trailers", list(h), False))
        env["wsgi.ext.http.send_trailers"] = send_trailers
    env.update(extra or {})

    def start_response(status, hs, exc_info=None):
        if not isinstance(status, str) or not status[:3].isdigit() or status[3:4] != " ":
            res.problems.append(f"status line {status!r}")
        for k, v in hs:
            if not isinstance(k, str) or not isinstance(v, str):
                res.problems.append(f"header is not text: {k!r}: {v!r}")
        res.events.append(("start", int(status[:3]), list(hs), None))
        return lambda d: res.problems.append("write() used")

    it = None
    try:
        it = app(env, start_response)
        if not res.starts:
            res.problems.append("start_response was not called before the application returned")
        n = 0
        for c in it:
            if not isinstance(c, bytes):
                res.problems.append("body is not bytes")
            res.events.append(("body", c, True))
            n += 1
            if stop_after is not None and n >= stop_after:
                break
        res.events.append(("body", b"", False))
    except Exception as e:
        res.exc = e
    finally:
        if it is not None and hasattr(it, "close"):
            it.close()
    res.env = env
    return res


# ----------------------------------------------------------------- in-process transports
def undo_encoding(headers, body):
    e = headers.get("content-encoding", "")
    if e == "gzip":
        return gzip.decompress(body) if body else body
    if e == "xor":
        return XorCompression().decompress(body)
    if e == "br":
        import brotli
        return brotli.decompress(body)
    if e == "zstd":
        import zstandard
        return zstandard.ZstdDecompressor().decompressobj().decompress(body)
    return body


class Captured:
    def __init__(self, method, url, headers, body):
        self.method, self.url, self.headers, self.body = method, url, headers, body

    def header(self, n):
        return [v for k, v in self.headers if k == n]

    def __repr__(self):
        return f"Captured({self.method} {self.url} {self.headers} {self.body[:200]!r})"


def _target(url):
    u = urlsplit(url)
    return unquote(u.path), u.query, u.scheme, u.netloc


class Resp:
    def __init__(self, status, headers, chunks, trailers, fail=None, sync=False):
        self.status, self.headers, self.trailers = status, headers, trailers
        self._chunks, self._fail, self._sync = list(chunks), fail, sync

    @property
    def content(self):
        return self._s() if self._sync else self._a()

    def _s(self):
        yield from self._chunks
        if self._fail:
            raise self._fail

    async def _a(self):
        for c in self._chunks:
            yield c
        if self._fail:
            raise self._fail


class Loop:
    """Both client interfaces over a function answer(captured) -> (status, headers, body, trailers[, exc])."""

    def __init__(self, answer, chunker=None):
        self.answer, self.chunker = answer, chunker or (lambda b: [b] if b else [])
        self.requests = []
        self.timeouts = []
        self.last = None


class ALoop(Loop):
    async def _go(self, m, url, headers, content):
        body = b""
        if isinstance(content, (bytes, bytearray, memoryview)):
            body = bytes(content)
        elif content is not None:
            parts = []
            async for c in content:
                parts.append(bytes(c))
            body = b"".join(parts)
            self.parts = parts
        c = Captured(m, url, list(headers.items()) if headers is not None else [], body)
        self.requests.append(c)
        r = self.answer(c)
        if asyncio.iscoroutine(r):
            r = await r
        self.last = r
        return r

    async def get(self, url, headers=None, timeout=None):
        return self._full(await self._go("GET", url, headers, None))

    async def post(self, url, headers=None, content=None, timeout=None):
        return self._full(await self._go("POST", url, headers, content))

    def _full(self, r):
        status, headers, body, trailers = r[:4]
        h = HTTPHeaders(headers)
        if len(r) > 4 and r[4]:
            raise r[4]
        return FullResponse(status=status, headers=h, content=undo_encoding(h, body), trailers=HTTPHeaders(trailers))

    @contextlib.asynccontextmanager
    async def stream(self, m, url, headers=None, content=None, timeout=None):
        r = await self._go(m, url, headers, content)
        yield Resp(r[0], HTTPHeaders(r[1]), self.chunker(r[2]), HTTPHeaders(r[3]), r[4] if len(r) > 4 else None)


class SLoop(Loop):
    def _go(self, m, url, headers, content, timeout):
        self.timeouts.append(timeout)
        body = b""
        if isinstance(content, (bytes, bytearray, memoryview)):
            body = bytes(content)
        elif content is not None:
            self.parts = [bytes(c) for c in content]
            body = b"".join(self.parts)
        c = Captured(m, url, list(headers.items()) if headers is not None else [], body)
        self.requests.append(c)
        self.last = r = self.answer(c)
        return r

    def get(self, url, headers=None, timeout=None):
        return ALoop._full(self, self._go("GET", url, headers, None, timeout))

    def post(self, url, headers=None, content=None, timeout=None):
        return ALoop._full(self, self._go("POST", url, headers, content, timeout))

    @contextlib.contextmanager
    def stream(self, method, url, headers=None, content=None, timeout=None):
        r = self._go(method, url, headers, content, timeout)
        yield Resp(r[0], HTTPHeaders(r[1]), self.chunker(r[2]), HTTPHeaders(r[3]), r[4] if len(r) > 4 else None, True)


def to_asgi(app, chunk=None, record=None):
    async def answer(c):
        path, q, scheme, host = _target(c.url)
        hs = list(c.headers)
        if not any(k == "host" for k, _ in hs):
            hs.append(("host", host))
        r = await raw_asgi(app, method=c.method, path=path, query=q.encode(), headers=hs, scheme=scheme,
                           chunks=(chunk(c.body) if chunk else [c.body]))
        if record is not None:
            record.append(r)
        return answer_of(r)

    return answer


def to_wsgi(app, chunk=None, record=None, content_length=True):
    def answer(c):
        path, q, scheme, host = _target(c.url)
        hs = list(c.headers)
        if not any(k == "host" for k, _ in hs):
            hs.append(("host", host))
        r = raw_wsgi(app, method=c.method, path=path, query=q, headers=hs, scheme=scheme,
                     chunks=(chunk(c.body) if chunk else [c.body]),
                     content_length=str(len(c.body)) if content_length and c.body else None)
        if record is not None:
            record.append(r)
        return answer_of(r)

    return answer


def answer_of(r):
    if r.status is None:
        return (500, [], b"", [])
    return (r.status, [(k.lower(), v) for k, v in r.headers], r.body, [(k.lower(), v) for k, v in r.trailers])


class Out:
    """Outcome of one client call."""

    def __init__(self):
        self.msgs, self.error, self.headers, self.trailers = [], None, [], []
        self.done = False

    @property
    def code(self):
        return self.error.code if isinstance(self.error, ConnectError) else None

    def __repr__(self):
        return f"Out(msgs={self.msgs[:6]}, error={self.error!r}, code={self.code}, headers={self.headers}, trailers={self.trailers})"


def client(mode, http, proto=P.CONNECT, address="http://h.example", **kw):
    kw.setdefault("codec", RawCodec())
    kw.setdefault("send_compression", None)
    return (ConnectClient if mode == "async" else ConnectClientSync)(address, protocol=proto, http_client=http, **kw)


async def acall(cl, kind, reqs, headers=None, timeout_ms=None, use_get=False, m=None):
    out = Out()
    m = m or method(kind)

    async def it():
        for r in reqs:
            yield r

    with ResponseMetadata() as meta:
        try:
            if kind == "unary":
                out.msgs.append(await cl.execute_unary(request=reqs[0], method=m, headers=headers,
                                                       timeout_ms=timeout_ms, use_get=use_get))
            elif kind == "client":
                out.msgs.append(await cl.execute_client_stream(request=it(), method=m, headers=headers,
                                                               timeout_ms=timeout_ms))
            else:
                if kind == "server":
                    s = cl.execute_server_stream(request=reqs[0], method=m, headers=headers, timeout_ms=timeout_ms)
                else:
                    s = cl.execute_bidi_stream(request=it(), method=m, headers=headers, timeout_ms=timeout_ms)
                async for x in s:
                    out.msgs.append(x)
            out.done = True
        except (Exception, asyncio.CancelledError) as e:
            out.error = e
        out.headers = list(meta.headers.allitems())
        out.trailers = list(meta.trailers.allitems())
    return out


def scall(cl, kind, reqs, headers=None, timeout_ms=None, use_get=False, m=None):
    out = Out()
    m = m or method(kind)
    with ResponseMetadata() as meta:
        try:
            if kind == "unary":
                out.msgs.append(cl.execute_unary(request=reqs[0], method=m, headers=headers, timeout_ms=timeout_ms,
                                                 use_get=use_get))
            elif kind == "client":
                out.msgs.append(cl.execute_client_stream(request=iter(reqs), method=m, headers=headers,
                                                         timeout_ms=timeout_ms))
            else:
                if kind == "server":
                    s = cl.execute_server_stream(request=reqs[0], method=m, headers=headers, timeout_ms=timeout_ms)
                else:
                    s = cl.execute_bidi_stream(request=iter(reqs), method=m, headers=headers, timeout_ms=timeout_ms)
                for x in s:
                    out.msgs.append(x)
            out.done = True
        except Exception as e:
            out.error = e
        out.headers = list(meta.headers.allitems())
        out.trailers = list(meta.trailers.allitems())
    return out


async def call(mode, cl, kind, reqs, **kw):
    if mode == "async":
        return await acall(cl, kind, reqs, **kw)
    return scall(cl, kind, reqs, **kw)


class E2E:
    """A client connected to a server application in this process."""

    def __init__(self, mode, proto=P.CONNECT, svc=None, server=None, client_kw=None, chunk=None, rchunk=None):
        self.mode, self.svc = mode, svc or Service()
        self.record = []
        s = dict(server or {})
        if mode == "async":
            self.app = asgi(self.svc, **s)
            self.http = ALoop(to_asgi(self.app, chunk, self.record), rchunk)
        else:
            self.app = wsgi(self.svc, **s)
            self.http = SLoop(to_wsgi(self.app, chunk, self.record), rchunk)
        self.client = client(mode, self.http, proto, **(client_kw or {}))

    async def call(self, kind, reqs, **kw):
        return await call(self.mode, self.client, kind, reqs, **kw)

    @property
    def req(self):
        return self.http.requests[-1]

    @property
    def res(self):
        return self.record[-1]


def raw_answer(status=200, headers=(), body=b"", trailers=(), exc=None):
    return lambda c: (status, list(headers), body, list(trailers), exc)


def fake(mode, answer, proto=P.CONNECT, rchunk=None, **kw):
    http = (ALoop if mode == "async" else SLoop)(answer, rchunk)
    return client(mode, http, proto, **kw), http


async def raw(mode, app, **kw):
    if mode == "async":
        return await raw_asgi(app, **kw)
    return raw_wsgi(app, **kw)


def app(mode, svc, **kw):
    return (asgi if mode == "async" else wsgi)(svc, **kw)


CT = {  # request content types for the raw codec
    (P.CONNECT, True): "application/raw", (P.CONNECT, False): "application/connect+raw",
    (P.GRPC, True): "application/grpc+raw", (P.GRPC, False): "application/grpc+raw",
    (P.GRPC_WEB, True): "application/grpc-web+raw", (P.GRPC_WEB, False): "application/grpc-web+raw",
}


def ctype(proto, kind):
    return CT[(proto, kind == "unary")]


ALL_CODES = list(Code)
TEXTS = ["", "a", "plain text", "percent % 100%25", "new\nline\r\n", "quote\"'\\", "unicode é ü 中文 \U0001f600", " lead and trail ",
         "semi;colon,comma:colon", "\x00\x01\x7f", "%41", "+plus&amp=", "tab\tend", "\u2028\u2029"]


def text(rnd, n=12):
    pool = "abc %+/=:;,\"'\\\n\r\t\x00\x7fé中\U0001f600~#?&-_."
    return rnd.choice(TEXTS) if rnd.random() < 0.4 else "".join(rnd.choice(pool) for _ in range(rnd.randrange(n)))


def blob(rnd, n=40):
    k = rnd.randrange(5)
    if k == 0:
        return b""
    if k == 1:
        return bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, n)))
    if k == 2:
        return b"\xff\xfb\xef\xbe" * rnd.randrange(1, 4)
    if k == 3:
        return bytes([rnd.randrange(256)]) * rnd.randrange(1, 300)
    return rnd.choice([b"a", b"ab", b"abc", b"\x00", b"\x00\x00\x00\x00\x00", b"{}", b"\x02\x00\x00\x00\x00"])


# ----------------------------------------------------------------- reading server responses independently
GRPC_NUM = {Code.CANCELED: 1, Code.UNKNOWN: 2, Code.INVALID_ARGUMENT: 3, Code.DEADLINE_EXCEEDED: 4, Code.NOT_FOUND: 5,
            Code.ALREADY_EXISTS: 6, Code.PERMISSION_DENIED: 7, Code.RESOURCE_EXHAUSTED: 8, Code.FAILED_PRECONDITION: 9,
            Code.ABORTED: 10, Code.OUT_OF_RANGE: 11, Code.UNIMPLEMENTED: 12, Code.INTERNAL: 13, Code.UNAVAILABLE: 14,
            Code.DATA_LOSS: 15, Code.UNAUTHENTICATED: 16}
NUM_CODE = {v: k for k, v in GRPC_NUM.items()}
HTTP_OF = {Code.CANCELED: 499, Code.UNKNOWN: 500, Code.INVALID_ARGUMENT: 400, Code.DEADLINE_EXCEEDED: 504,
           Code.NOT_FOUND: 404, Code.ALREADY_EXISTS: 409, Code.PERMISSION_DENIED: 403, Code.RESOURCE_EXHAUSTED: 429,
           Code.FAILED_PRECONDITION: 400, Code.ABORTED: 409, Code.OUT_OF_RANGE: 400, Code.UNIMPLEMENTED: 501,
           Code.INTERNAL: 500, Code.UNAVAILABLE: 503, Code.DATA_LOSS: 500, Code.UNAUTHENTICATED: 401}
CODE_OF_HTTP = {400: Code.INTERNAL, 401: Code.UNAUTHENTICATED, 403: Code.PERMISSION_DENIED, 404: Code.UNIMPLEMENTED,
                429: Code.UNAVAILABLE, 502: Code.UNAVAILABLE, 503: Code.UNAVAILABLE, 504: Code.UNAVAILABLE}


class Verdict:
    """What a response says: ok (bool), code, message, msgs [(flag, payload)], trailers, problems."""

    def __init__(self):
        self.ok, self.code, self.message, self.msgs, self.trailers, self.problems = None, None, None, [], [], []

    def __repr__(self):
        return f"Verdict(ok={self.ok}, code={self.code}, message={self.message!r}, msgs={self.msgs[:4]}, trailers={self.trailers}, problems={self.problems})"


def verdict(res, proto, kind):
    v = Verdict()
    if proto == P.CONNECT and kind == "unary":
        v.trailers = [(k[8:], x) for k, x in res.headers if k.startswith("trailer-")]
        if res.status == 200:
            v.ok, v.msgs = True, [(0, res.body)]
            return v
        v.ok = False
        j = res.error_json()
        if isinstance(j, dict) and "code" in j:
            v.code, v.message = Code(j["code"]), j.get("message", "")
        return v
    if res.status != 200:
        v.ok = False
        return v
    fs, rest = frames(res.body)
    if rest:
        v.problems.append("partial frame at the end of the body")
    end = {P.CONNECT: 2, P.GRPC_WEB: 128}.get(proto)
    tr = None
    if end:
        ends = [f for f in fs if f[0] & end]
        v.msgs = [f for f in fs if not f[0] & end]
        if len(ends) != 1 or not fs or not fs[-1][0] & end:
            v.problems.append(f"{len(ends)} terminators, last flag {fs[-1][0] if fs else None}")
        if not ends:
            return v
        flag, data = ends[-1]
        if flag & 1:
            e = res.header("connect-content-encoding" if proto == P.CONNECT else "grpc-encoding")
            data = undo_encoding({"content-encoding": e}, data)
        if proto == P.CONNECT:
            j = json.loads(data)
            v.trailers = [(k, x) for k, xs in j.get("metadata", {}).items() for x in xs]
            v.ok = "error" not in j
            if not v.ok:
                v.code, v.message = Code(j["error"]["code"]), j["error"].get("message", "")
            return v
        tr = [tuple(s.strip() for s in line.split(":", 1)) for line in data.decode().split("\r\n") if line]
    else:
        v.msgs = fs
        tr = res.trailers
    st = [x for k, x in tr if k.lower() == "grpc-status"]
    if len(st) != 1:
        v.problems.append(f"{len(st)} grpc-status trailers")
        return v
    v.ok = st[0] == "0"
    v.code = None if v.ok else NUM_CODE.get(int(st[0]))
    v.message = unquote(dict(tr).get("grpc-message", ""))
    v.trailers = [(k, x) for k, x in tr if not k.lower().startswith("grpc-")]
    return v


def details(*bs):
    from protobuf.wkt import Any
    return [ErrorDetail(Any(type_url="type.googleapis.com/" + t, value=b)) for t, b in bs]


def details_of(e):
    return [(d.type_name, bytes(d.message_bytes)) for d in e.details]


def rand_details(rnd):
    return [(rnd.choice(["a.B", "google.rpc.ErrorInfo", "x.y.z.Q", "p.S.M"]), blob(rnd)) for _ in range(rnd.choice([0, 0, 1, 2, 3]))]
