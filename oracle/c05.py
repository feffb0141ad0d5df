"""C05: client failures, executed with injected faults."""
import contextlib
import ssl

from pyqwest import ReadError, StreamError, StreamErrorCode as C, WriteError

from oracle.core import case
from oracle.kit import *

RESET = {"NO_ERROR": Code.INTERNAL, "PROTOCOL_ERROR": Code.INTERNAL, "INTERNAL_ERROR": Code.INTERNAL, "FLOW_CONTROL_ERROR": Code.INTERNAL,
         "SETTINGS_TIMEOUT": Code.INTERNAL, "FRAME_SIZE_ERROR": Code.INTERNAL, "COMPRESSION_ERROR": Code.INTERNAL,
         "CONNECT_ERROR": Code.INTERNAL, "REFUSED_STREAM": Code.UNAVAILABLE, "CANCEL": Code.CANCELED,
         "ENHANCE_YOUR_CALM": Code.RESOURCE_EXHAUSTED, "INADEQUATE_SECURITY": Code.PERMISSION_DENIED,
         "STREAM_CLOSED": Code.UNAVAILABLE, "HTTP_1_1_REQUIRED": Code.UNAVAILABLE}


def faults():
    out = [(f"reset {n}", lambda c=getattr(C, n): StreamError("m", c), code) for n, code in RESET.items()]
    for e in (ReadError, WriteError, OSError, ConnectionResetError, ValueError, KeyError, RuntimeError, ssl.SSLError, EOFError, AssertionError,
              UnicodeDecodeError, StopIteration, MemoryError, RecursionError, LookupError):
        if e is UnicodeDecodeError:
            out.append(("UnicodeDecodeError", lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), Code.UNAVAILABLE))
        elif e is not StopIteration:
            out.append((e.__name__, lambda e=e: e("m"), Code.UNAVAILABLE))
    out.append(("TimeoutError", lambda: TimeoutError("t"), Code.DEADLINE_EXCEEDED))
    out.append(("asyncio.TimeoutError", lambda: asyncio.TimeoutError("t"), Code.DEADLINE_EXCEEDED))
    for c in (Code.INTERNAL, Code.DATA_LOSS, Code.OUT_OF_RANGE):
        out.append((f"ConnectError {c}", lambda c=c: ConnectError(c, "peer"), c))
    return out


def good(proto, kind, chunks=2):
    """A complete successful response as chunks, and trailers."""
    if proto == P.CONNECT and kind == "unary":
        return [b"ok"], []
    b = frame(b"m1")
    if proto == P.CONNECT:
        return [b, frame(b"{}", 2)], []
    if proto == P.GRPC:
        return [b[:3], b[3:]], [("grpc-status", "0")]
    return [b, frame(b"grpc-status: 0\r\n", 128)], []


class Fault:
    """raises at a point: 'request', 'headers' (before the response), n (after n chunks), 'end' (after the body), 'exit'"""

    def __init__(self, mode, proto, kind, point, make, trailers=None):
        self.mode, self.proto, self.kind, self.point, self.make = mode, proto, kind, point, make
        self.tr = trailers

    def resp(self):
        chunks, tr = good(self.proto, self.kind)
        fail = None
        if isinstance(self.point, int):
            chunks, fail = chunks[:self.point], self.make()
        elif self.point == "end":
            fail = self.make()
        return Resp(200, HTTPHeaders([("content-type", ctype(self.proto, self.kind))]), chunks,
                    HTTPHeaders(self.tr if self.tr is not None else tr), fail, self.mode == "sync")

    def full(self):
        if self.point is not None:
            raise self.make()
        return FullResponse(status=200, headers=HTTPHeaders([("content-type", "application/raw")]), content=b"ok", trailers=HTTPHeaders())


class AFault(Fault):
    async def post(self, url, headers=None, content=None):
        return self.full()

    async def get(self, url, headers=None):
        return self.full()

    def stream(self, m, url, headers=None, content=None):
        if self.point == "request":
            raise self.make()

        @contextlib.asynccontextmanager
        async def cm():
            if self.point == "headers":
                raise self.make()
            async for _ in content:
                pass
            if self.point == "sent":
                raise self.make()
            yield self.resp()
            if self.point == "exit":
                raise self.make()

        return cm()


class SFault(Fault):
    def post(self, url, headers=None, content=None, timeout=None):
        return self.full()

    def get(self, url, headers=None, timeout=None):
        return self.full()

    def stream(self, method, url, headers=None, content=None, timeout=None):
        if self.point == "request":
            raise self.make()

        @contextlib.contextmanager
        def cm():
            if self.point == "headers":
                raise self.make()
            for _ in content:
                pass
            if self.point == "sent":
                raise self.make()
            yield self.resp()
            if self.point == "exit":
                raise self.make()

        return cm()


@case("C05", bound="exhaustive: 31 faults x 7 points of the call x 3 protocols x 4 kinds x both modes")
async def transport(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                uc = proto == P.CONNECT and kind == "unary"
                for point in (["request"] if uc else ["request", "headers", "sent", 0, 1, "end", "exit"]):
                    for name, make, code in faults():
                        http = (AFault if mode == "async" else SFault)(mode, proto, kind, point, make, trailers=[] if point != "exit" and proto == P.GRPC else None)
                        out = await call(mode, client(mode, http, proto), kind, [M(b"q")], **({"use_get": True} if uc and name < "m" else {}))
                        d = dict(mode=mode, proto=proto, kind=kind, point=point, fault=name, out=out)
                        o.check("a ConnectError is raised", isinstance(out.error, ConnectError), **d)
                        if isinstance(out.error, ConnectError):
                            o.eq("with the right code", out.code, code, **d)


@case("C05", bound="reset CANCEL after the deadline; resets with valid, foreign and malformed grpc trailers")
async def resets(o):
    bad = [[("grpc-status", "5"), ("grpc-message", "m"), ("grpc-status-details-bin", x)] for x in ("A", "/w==", "!!!", "gA", "CgE")]
    for mode in MODES:
        for n, code in RESET.items():
            for tr in [[], [("grpc-status", "0")], [("grpc-status", "5")], [("grpc-status", "x")]] + bad:
                for point in (0, 1, "end"):
                    http = (AFault if mode == "async" else SFault)(mode, P.GRPC, "server", point, lambda: StreamError("m", getattr(C, n)), tr)
                    out = await call(mode, client(mode, http, P.GRPC), "server", [M(b"q")])
                    d = dict(mode=mode, reset=n, trailers=tr, point=point, out=out)
                    if n in ("STREAM_CLOSED", "HTTP_1_1_REQUIRED"):
                        o.check("a ConnectError is raised", isinstance(out.error, ConnectError), **d)
                    else:
                        o.check("the code of the reset", out.code == code, **d)
        for kind, proto in (("server", P.GRPC), ("unary", P.CONNECT), ("bidi", P.CONNECT)):
            import time
            def late():
                time.sleep(0.005)
                return StreamError("m", C.CANCEL)
            http = (AFault if mode == "async" else SFault)(mode, proto, kind, "request", late)
            out = await call(mode, client(mode, http, proto), kind, [M(b"q")], timeout_ms=1)
            o.eq("a CANCEL reset after the deadline is deadline_exceeded", out.code, Code.DEADLINE_EXCEEDED, mode=mode, kind=kind, out=out)


@case("C05", bound="1500 random malformed responses (status, headers, body, trailers)")
async def malformed(o):
    jsons = [b"", b"{", b"[]", b"1", b"null", b'"x"', b'{"code": 5}', b'{"code": []}', b'{"code": {"a":1}}', b'{"code":"internal","message":7}',
             b'{"code":"internal","details":"abc"}', b'{"code":"internal","details":[1]}', b'{"code":"internal","details":[{"type":1,"value":2}]}',
             b'{"code":"internal","details":[{"type":"a","value":"A"}]}', b'{"code":"bogus"}', b"\xff\xfe", b"[" * 100000, b'{"error": 1}', b'{"error": "x"}',
             b'{"error": {"code": "not_found", "details": {}}}', b'{"metadata": 1}', b'{"metadata": {"a": 1}}', b'{"metadata": {"a": [1, null]}}',
             b'{"metadata": ["a"]}', b'{"error": []}', b'{"error": {"details": [null]}}']
    for i in o.times(1500):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        st = r.choice([200, 200, 200, 404, 500, 503, 301, 204])
        ct = r.choice([ctype(proto, kind)] * 6 + ["application/json", "", "text/plain", "application/grpc", "application/proto"])
        j = r.choice(jsons)
        body = r.choice([j, frame(j, 2), frame(b"m") + frame(j, 2), frame(j, 128), frame(r.choice([b"nocolon", b"\xff: x", b"grpc-status", b": :\r\n", b"grpc-status: 7\r\ngrpc-status-details-bin: A\r\n"]), 128),
                         frame(b"x", 1), frame(b"x", 3), frame(b"x", 129), blob(r), frame(b"y", r.randrange(256)), b"\xff" * 9, frame(b"m")])
        hs = [("content-type", ct)] if ct else []
        if r.random() < .4:
            hs.append((r.choice(["content-encoding", "connect-content-encoding", "grpc-encoding"]), r.choice(["xor", "grow", "zz", "identity", ""])))
        tr = r.choice([[], [("grpc-status", "0")], [("grpc-status", r.choice(["3", "99", "", "x", "-1"]))],
                       [("grpc-status", "3"), ("grpc-status-details-bin", r.choice(["A", "////", "é", "CAE"]))]])
        codec = RawCodec()
        if r.random() < .2:
            codec.fail_decode = lambda b: True
        if r.random() < .1:
            codec.fail_encode = lambda m: True
        http = None

        def answer(c):
            return (st, hs, body, tr)

        kw = dict(accept_compression=[XorCompression(), Grow()], codec=codec)
        if proto == P.CONNECT and kind == "unary":
            hs = [h for h in hs if h[0] != "content-encoding" or h[1] in ("zz", "identity")]
        cl, _ = fake(mode, answer, proto, rchunk=lambda b: cut(b, r), **kw)
        out = await call(mode, cl, kind, [M(b"q")])
        o.check("a call succeeds or raises ConnectError", out.done or isinstance(out.error, ConnectError), mode=mode, proto=proto, kind=kind,
                status=st, headers=hs, body=body[:200], trailers=tr, out=out)


@case("C05", bound="an error of the peer at every point a later transport fault can follow; codec, compression and request iterator failures")
async def others(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for what in ("encode", "decode", "decompress", "iter"):
                    codec = RawCodec()
                    if what == "encode":
                        codec.fail_encode = lambda m: True
                    if what == "decode":
                        codec.fail_decode = lambda b: True
                    hs = [("content-type", ctype(proto, kind))]
                    chunks, tr = good(proto, kind)
                    body = b"".join(chunks)
                    if what == "decompress":
                        if proto == P.CONNECT and kind == "unary":
                            continue
                        hs.append(("connect-content-encoding" if proto == P.CONNECT else "grpc-encoding", "xor"))
                        body = frame(b"nonsense", 1)
                    cl, _ = fake(mode, raw_answer(200, hs, body, tr), proto, codec=codec, accept_compression=[XorCompression()])
                    if what == "iter":
                        if kind not in ("client", "bidi"):
                            continue

                        def it():
                            yield M(b"a")
                            raise OSError("disk")

                        async def ait():
                            yield M(b"a")
                            raise OSError("disk")
                        err = None
                        try:
                            kw = dict(request=it() if mode == "sync" else ait(), method=method(kind))
                            if kind == "client":
                                x = cl.execute_client_stream(**kw)
                                if mode == "async":
                                    await x
                            elif mode == "async":
                                async for _ in cl.execute_bidi_stream(**kw):
                                    pass
                            else:
                                list(cl.execute_bidi_stream(**kw))
                        except Exception as e:
                            err = e
                        o.check("a failing request iterator gives unavailable", isinstance(err, ConnectError) and err.code == Code.UNAVAILABLE, mode=mode, proto=proto, kind=kind, err=err)
                        continue
                    out = await call(mode, cl, kind, [M(b"q")])
                    o.eq("codec and compression failures are unavailable", out.code, Code.UNAVAILABLE, mode=mode, proto=proto, kind=kind, what=what, out=out)


@case("C05", bound="async only: cancelling after 0..12 loop steps, and a deadline of 15 ms at each point of the call, every protocol and kind")
async def cancel_and_timeout(o):
    for proto in PROTOS:
        for kind in KINDS:
            for hang in ("request", "headers", 0, 1, "end"):
                async def wait():
                    await asyncio.sleep(3600)

                chunks, tr = good(proto, kind)

                class R(Resp):
                    async def _a(self):
                        for i, c in enumerate(chunks):
                            if hang == i:
                                await wait()
                            yield c
                        if hang == "end":
                            await wait()

                    content = property(lambda s: s._a())

                class H:
                    async def post(self, url, headers=None, content=None):
                        await wait()

                    get = post

                    @contextlib.asynccontextmanager
                    async def stream(self, m, url, headers=None, content=None):
                        if hang == "request":
                            await wait()
                        async for _ in content:
                            pass
                        if hang == "headers":
                            await wait()
                        yield R(200, HTTPHeaders([("content-type", ctype(proto, kind))]), chunks, HTTPHeaders(tr))

                out = await asyncio.wait_for(acall(client("async", H(), proto), kind, [M(b"q")], timeout_ms=15), 10)
                o.eq("a timeout gives deadline_exceeded", out.code, Code.DEADLINE_EXCEEDED, proto=proto, kind=kind, hang=hang, out=out)
                for steps in (0, 1, 2, 3, 5, 8, 12):
                    t = asyncio.ensure_future(acall(client("async", H(), proto), kind, [M(b"q")]))
                    for _ in range(steps + 1):
                        await asyncio.sleep(0)
                    t.cancel()
                    out = await asyncio.wait_for(t, 10)
                    o.eq("cancelling gives canceled", out.code, Code.CANCELED, proto=proto, kind=kind, hang=hang, steps=steps, out=out)


@case("C05", bound="every code reported by the peer, in each protocol's way, with a transport fault afterwards or not")
async def peer_errors(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for code in ALL_CODES:
                    def beh(q, c):
                        raise ConnectError(code, "m")
                        yield
                    out = await E2E(mode, proto, Service(beh)).call(kind, [M(b"q")])
                    o.eq("the peer's code is kept", out.code, code, mode=mode, proto=proto, kind=kind, out=out)
        # several failing calls in a row on one client


@case("C05", bound="a transport whose stream fails again on exit, after an error that the response carried; 3 protocols x all codes x 3 faults x both modes")
async def error_then_exit_fault(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                if (proto, kind) == (P.CONNECT, "unary"):
                    continue
                for n in (0, 1):
                    for code in ALL_CODES:
                        for what in ("peer", "limit", "prefix", "http"):
                            kw, tr, st = {}, [], 200
                            m = frame(b"m") * n
                            if what == "peer":
                                b = m + (frame(json.dumps({"error": {"code": code.value}}).encode(), 2) if proto == P.CONNECT else
                                         b"" if proto == P.GRPC else frame(f"grpc-status: {GRPC_NUM[code]}\r\n".encode(), 128))
                                if proto == P.GRPC:
                                    tr = [("grpc-status", str(GRPC_NUM[code]))]
                                want = code
                            elif what == "limit":
                                b, want, kw = m + frame(b"x" * 50), Code.RESOURCE_EXHAUSTED, dict(read_max_bytes=5)
                            elif what == "http":
                                b, want, st = b"", Code.PERMISSION_DENIED, 403
                            else:
                                b, want = m + frame(b"zz", 1), Code.INTERNAL
                            if what != "peer" and code is not Code.INTERNAL:
                                continue
                            for make in (lambda: StreamError("m", C.CANCEL), lambda: OSError("m"), lambda: StreamError("m", C.REFUSED_STREAM)):
                                r = Resp(st, HTTPHeaders([("content-type", ctype(proto, kind))]), [b], HTTPHeaders(tr), None, mode == "sync")

                                class SH:
                                    @contextlib.contextmanager
                                    def stream(self, method, url, headers=None, content=None, timeout=None):
                                        for _ in content:
                                            pass
                                        try:
                                            yield r
                                        finally:
                                            raise make()

                                class AH:
                                    @contextlib.asynccontextmanager
                                    async def stream(self, method, url, headers=None, content=None):
                                        async for _ in content:
                                            pass
                                        try:
                                            yield r
                                        finally:
                                            raise make()
                                out = await call(mode, client(mode, SH() if mode == "sync" else AH(), proto, **kw), kind, [M(b"q")])
                                o.eq("the first error's code is kept", out.code, want, mode=mode, proto=proto, kind=kind, n=n, code=code, what=what, fault=repr(make()), out=out)
