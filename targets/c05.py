"""C05: every client-side failure surfaces as a ConnectError with the right code."""
from pyvc.harness import *
from targets.world import *

RESET = {"NO_ERROR": "INTERNAL", "PROTOCOL_ERROR": "INTERNAL", "INTERNAL_ERROR": "INTERNAL", "FLOW_CONTROL_ERROR": "INTERNAL",
         "SETTINGS_TIMEOUT": "INTERNAL", "FRAME_SIZE_ERROR": "INTERNAL", "COMPRESSION_ERROR": "INTERNAL", "CONNECT_ERROR": "INTERNAL",
         "REFUSED_STREAM": "UNAVAILABLE", "CANCEL": "CANCELED", "ENHANCE_YOUR_CALM": "RESOURCE_EXHAUSTED",
         "INADEQUATE_SECURITY": "PERMISSION_DENIED", "STREAM_CLOSED": "UNAVAILABLE", "HTTP_1_1_REQUIRED": "UNAVAILABLE"}


class Alien(Exception):
    """An exception the library knows nothing about: for every class it does not name."""


def classes():
    import ssl

    from pyqwest import ReadError, WriteError

    return [Alien, OSError, ConnectionResetError, ssl.SSLError, ReadError, WriteError, ValueError, KeyError, IndexError, TypeError, AttributeError,
            RuntimeError, EOFError, AssertionError, MemoryError, RecursionError, NotImplementedError, ZeroDivisionError]


def plain(h):
    """Any other failure: (a maker, the code)."""
    cs = classes() + [UnicodeDecodeError]
    c = h.choice("class", cs)
    if c is UnicodeDecodeError:
        return (lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")), "UNAVAILABLE"
    return (lambda: c("m")), "UNAVAILABLE"


def fault(h, mode, own=True):
    """A failure: (a maker, the code of the library's error for it).

    own: also those that are timeouts, cancellation or the library's own errors."""
    import asyncio

    from pyqwest import StreamError, StreamErrorCode

    kinds = ["other", "reset"] + ((["timeout", "rpc"] + (["cancelled", "deadline"] if mode == "async" else [])) if own else [])
    k = h.choice("fault", kinds)
    if k == "other":
        return plain(h)
    if k == "reset":
        n = h.choice("reset", list(RESET))
        return (lambda: StreamError("m", getattr(StreamErrorCode, n))), RESET[n]
    if k == "timeout":
        return (lambda: TimeoutError("t")), "DEADLINE_EXCEEDED"
    if k == "rpc":
        from connectrpc.code import Code
        from connectrpc.errors import ConnectError

        return (lambda: h.new(ConnectError, Code.DATA_LOSS, "m")), "DATA_LOSS"
    if k == "cancelled":
        return asyncio.CancelledError, "CANCELED"

    def deadline():
        # what asyncio.timeout does at the deadline: the await in progress is cancelled
        e = asyncio.CancelledError()
        e._pv_deadline = True
        return e
    return deadline, "DEADLINE_EXCEEDED"


def few(h):
    """Some failures (of each of the classes that the library tells apart)."""
    from pyqwest import StreamError, StreamErrorCode

    return h.choice("fault", [lambda: Alien("m"), lambda: ValueError("m"), lambda: StreamError("m", StreamErrorCode.CANCEL), lambda: StreamError("m", StreamErrorCode.REFUSED_STREAM), lambda: StreamError("m", StreamErrorCode.STREAM_CLOSED)])


class Entering(AResponse):
    async def __aenter__(self):
        raise self.enter_fault


class EnteringSync(SResponse):
    def __enter__(self):
        raise self.enter_fault


class Faulty(Wire):
    """A transport that may fail on entering the response."""

    enter_fault = None

    def _stream(self, how, url, headers, content):
        r = super()._stream(how, url, headers, content)
        if self.enter_fault is None:
            return r
        e = (Entering if self.mode == "async" else EnteringSync)(self.h, r.status, [], r.chunks, [])
        e.enter_fault = self.enter_fault
        return e


class Broken(Frames if SYMBOLIC else object):
    """A stream that breaks with a given exception, or is read by a task that is interrupted."""

    make = None

    def piece(self):
        try:
            return super().piece()
        except OSError:
            if self.make is None:
                raise
        raise self.make()


def consume(h, mode, cl, kind, on=None, **kw):
    """One call: ('ok' | 'exc', value)."""
    request = message(h, "request")
    if kind in ("client_stream", "bidi_stream"):
        async def gen():
            yield request
        req = gen() if mode == "async" else iter([request])
    else:
        req = request
    on = on or (lambda m: None)

    def run():
        r = h.call(getattr(cl, "execute_" + kind), request=req, method=method(kind), **kw)
        if kind in ("unary", "client_stream"):
            on(h.drive(r) if mode == "async" else r)
            return
        if mode == "async":
            h.drive(h.aconsume(r, on))
        else:
            h.consume(r, on)
    return h.outcome(run)


def judge(h, what, k, e, code):
    from connectrpc.errors import ConnectError

    h.check(f"C05.{what}: a failure is a ConnectError", k == "exc" and isinstance(e, ConnectError))
    h.check(f"C05.{what}: with the right code", e.code.name == code)


@target("C05", "transport", split={"mode": 2, "protocol": 3, "point": 4, "fault": 3}, reentry=True)
def transport(h):
    """The transport fails, or the task is interrupted, at any point of a streaming response of
    any number of messages."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    point = h.choice("point", ["request", "response", "body", "end"])
    kind = h.choice("kind", ["server_stream", "bidi_stream"]) if point == "response" else "server_stream"
    make, code = fault(h, mode)
    frames = Broken(h, {"fault": b""} if point == "body" else {"success": success(h, proto)}, proto=proto)
    frames.make = make
    reply = {"headers": [("content-type", CT[proto])], "chunks": frames, "trailers": [("grpc-status", "0")] if proto == "grpc" and point != "body" else []}
    if point == "request":
        reply = make()
    elif point == "end":
        reply["close_fault"] = make()
    wire = Faulty(h, mode, reply if isinstance(reply, dict) else lambda req: make())
    if point == "response":
        wire.enter_fault = make()
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h))
    k, e = consume(h, mode, cl, kind, **({"timeout_ms": 10**9} if code == "DEADLINE_EXCEEDED" else {}))
    h.cover(point)
    judge(h, "transport", k, e, code)


@target("C05", "interrupted", split={"protocol": 3}, reentry=True)
def interrupted(h):
    """The task of a call is cancelled, or its deadline expires, while it hands out a message."""
    import asyncio

    proto = h.choice("protocol", PROTOS)
    deadline = h.choice("by", ["cancellation", "deadline"]) == "deadline"
    frames = Frames(h, {"success": success(h, proto)}, proto=proto)
    hit = []

    def on_sleep():
        if h.ex.choice(2, "interrupted") == 1:
            e = asyncio.CancelledError()
            e._pv_deadline = deadline
            hit.append(1)
            raise e
    wire = Wire(h, "async", {"headers": [("content-type", CT[proto])], "chunks": frames, "trailers": [("grpc-status", "0")] if proto == "grpc" else []})
    cl = make_client(h, "async", proto, http_client=wire, codec=codec(h))
    h.ex.data["on_sleep"] = on_sleep
    k, e = consume(h, "async", cl, "server_stream", **({"timeout_ms": 10**9} if deadline else {}))
    if not hit:
        h.check("C05.interrupted: a call that is not interrupted succeeds", k == "ok")
        return
    judge(h, "interrupted", k, e, "DEADLINE_EXCEEDED" if deadline else "CANCELED")


@target("C05", "single", split={"mode": 2, "protocol": 3})
def single(h):
    """Calls of one response fail at any point."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["unary", "client_stream"])
    plain_ = proto == "connect" and kind == "unary"
    how = h.choice("method", ["POST", "GET"]) if plain_ else "POST"
    point = h.choice("point", ["request"] if plain_ else ["request", "response", "first", "second", "end"])
    make, code = fault(h, mode)

    def chunks():
        return {"first": [], "second": [frame(h, 0, b"m")]}.get(point, [frame(h, 0, b"m"), success(h, proto)] if proto != "grpc" else [frame(h, 0, b"m")])
    reply = {"headers": [("content-type", CT[proto])], "chunks": chunks(), "trailers": [("grpc-status", "0")] if proto == "grpc" and point == "end" else []}
    if point in ("first", "second"):
        reply["fault"] = make()
    elif point == "end":
        reply["close_fault"] = make()
    wire = Faulty(h, mode, (lambda req: make()) if point == "request" else reply)
    if point == "response":
        wire.enter_fault = make()
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h))
    kw = {"timeout_ms": 10**9} if code == "DEADLINE_EXCEEDED" else {}
    if how == "GET":
        kw["use_get"] = True
    k, e = consume(h, mode, cl, kind, **kw)
    if plain_ and code == "DEADLINE_EXCEEDED" and mode == "async" and point == "request":
        # an interrupted request is turned into TimeoutError by wait_for (its contract)
        h.check("C05.single: a failure is an error", k == "exc")
        if getattr(make(), "_pv_deadline", False):
            return
    judge(h, "single", k, e, code)


@target("C05", "late_reset", split={"mode": 2, "protocol": 3})
def late_reset(h):
    """A reset CANCEL after the call's own deadline, at any time."""
    from pyqwest import StreamError, StreamErrorCode

    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["unary", "server_stream"])
    t = h.int("timeout", 1, 10**8)
    wire = Wire(h, mode, lambda req: StreamError("m", StreamErrorCode.CANCEL))
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h))
    k, e = consume(h, mode, cl, kind, timeout_ms=t)
    h.check("C05.late_reset: canceled, or deadline_exceeded after the deadline", k == "exc" and isinstance(e, ConnectError) and e.code.name in ("CANCELED", "DEADLINE_EXCEEDED"))


@target("C05", "reset_trailers", split={"mode": 2, "point": 3}, reentry=True)
def reset_trailers(h):
    """A reset that comes with any trailers keeps its code."""
    from pyqwest import StreamError, StreamErrorCode

    mode = h.choice("mode", ["async", "sync"])
    point = h.choice("point", ["body", "end", "foreign"])
    # one for each code (what each gives is C05.transport)
    n = h.choice("reset", ["INTERNAL_ERROR", "REFUSED_STREAM", "CANCEL", "ENHANCE_YOUR_CALM", "INADEQUATE_SECURITY"])

    def make():
        return StreamError("m", getattr(StreamErrorCode, n))
    status = h.choice("status", ["none", "0", "any"]) if point != "foreign" else "none"
    tr = [] if status == "none" else [("grpc-status", "0" if status == "0" else h.field("grpc-status"))]
    if status == "any":
        tr += h.choice("details", [[], [("grpc-status-details-bin", "A")], [("grpc-status-details-bin", "!!!")]])
    if point == "foreign":
        tr = [("x", h.field("value"))]
    frames = Broken(h, {"fault": b""} if point != "end" else {"whole": b""}, proto="grpc")
    frames.make = make
    reply = {"headers": [("content-type", CT["grpc"])], "chunks": frames, "trailers": tr}
    if point == "end":
        reply["close_fault"] = make()
    wire = Wire(h, mode, reply)
    cl = make_client(h, mode, "grpc", http_client=wire, codec=codec(h))
    k, e = consume(h, mode, cl, "server_stream")
    from connectrpc.errors import ConnectError

    h.check("C05.reset_trailers: a failure is a ConnectError", k == "exc" and isinstance(e, ConnectError))
    if point != "end":
        h.check("C05.reset_trailers: with the code of the reset", e.code.name == RESET[n])


@target("C05", "error_then_fault", split={"mode": 2, "protocol": 3, "error": 4}, reentry=True)
def error_then_fault(h):
    """The transport fails once more while a failed call is closed."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    what = h.choice("error", ["peer", "limit", "http", "frame"])
    make = few(h)
    status, trailers, kw = 200, [], {}
    if what == "peer":
        want = "ABORTED"
        end = {"connect": frame(h, 2, b'{"error": {"code": "aborted"}}'), "grpc-web": frame(h, 128, b"grpc-status: 10\r\n"), "grpc": b""}[proto]
        trailers = [("grpc-status", "10")] if proto == "grpc" else []
    elif what == "limit":
        want, end, kw = "RESOURCE_EXHAUSTED", frame(h, 0, b"123456"), {"read_max_bytes": 5}
    elif what == "http":
        want, end, status = "PERMISSION_DENIED", b"", 403
    else:
        want, end = "INTERNAL", frame(h, 1, b"compressed without a compression")
    frames = Frames(h, {"end": end}, proto=proto)
    wire = Wire(h, mode, {"status": status, "headers": [("content-type", CT[proto])], "chunks": frames if what != "http" else [], "trailers": trailers, "close_fault": make()})
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h), **kw)
    k, e = consume(h, mode, cl, "server_stream")
    judge(h, "error_then_fault", k, e, want)


class FaultyCodec(CodecStub if SYMBOLIC else object):
    """A codec that may raise at any message."""

    where = None
    make = None
    raised = False

    def decode(self, data, message_class):
        if self.where == "decode" and core.ex().choice(2, "decode_fails") == 1:
            self.raised = True
            raise self.make()
        return super().decode(data, message_class)

    def encode(self, m):
        if self.where == "encode" and core.ex().choice(2, "encode_fails") == 1:
            self.raised = True
            raise self.make()
        return super().encode(m)


class FaultyCompression(CompressionStub if SYMBOLIC else object):
    where = None
    make = None
    raised = False

    def decompress(self, data):
        if self.where == "decompress" and core.ex().choice(2, "decompress_fails") == 1:
            self.raised = True
            raise self.make()
        return super().decompress(data)

    def compress(self, data):
        if self.where == "compress" and core.ex().choice(2, "compress_fails") == 1:
            self.raised = True
            raise self.make()
        return super().compress(data)


@target("C05", "coding", split={"mode": 2, "protocol": 3, "where": 2}, reentry=True)
def coding(h):
    """A codec or a compression fails at any message of a response of any length."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    where = h.choice("where", ["decode", "decompress"])
    c = h.choice("class", [Alien, OSError, ValueError, KeyError, TypeError, MemoryError])
    make, code = (lambda: c("m")), "UNAVAILABLE"
    cd, cp = FaultyCodec(), FaultyCompression(may_fail=False)
    h.ex.data["small"] = True
    for x in (cd, cp):
        x.where, x.make = where, make
    frames = Frames(h, {"success": success(h, proto)}, packed=True, proto=proto)
    wire = Wire(h, mode, {"headers": [("content-type", CT[proto]), ("connect-content-encoding" if proto == "connect" else "grpc-encoding", "gzip")], "chunks": frames, "trailers": [("grpc-status", "0")] if proto == "grpc" else []})
    cl = make_client(h, mode, proto, http_client=wire, codec=cd, accept_compression=[cp])
    k, e = consume(h, mode, cl, "server_stream")
    if cd.raised or cp.raised:
        h.cover("a failure")
        judge(h, "coding", k, e, code)
    else:
        h.check("C05.coding: otherwise the call succeeds", k == "ok")


@target("C05", "coding_single", split={"mode": 2, "where": 3})
def coding_single(h):
    """A codec or a compression fails in a Connect unary call."""
    mode = h.choice("mode", ["async", "sync"])
    where = h.choice("where", ["encode", "compress", "decode"])
    how = h.choice("method", ["POST", "GET"])
    make, code = plain(h)
    cd, cp = FaultyCodec(), FaultyCompression(may_fail=False)
    for x in (cd, cp):
        x.where, x.make = where, make
    wire = Wire(h, mode, {"headers": [("content-type", "application/proto")], "body": h.bytes("response")})
    cl = make_client(h, mode, "connect", http_client=wire, codec=cd, send_compression=cp)
    k, e = consume(h, mode, cl, "unary", **({"use_get": True} if how == "GET" else {}))
    if cd.raised or cp.raised:
        h.cover("a failure")
        judge(h, "coding_single", k, e, code)
    else:
        h.check("C05.coding_single: otherwise the call succeeds", k == "ok")


# ------------------------------------------------------------------ what a peer may say
def scalar(h, label, text=None):
    what = h.choice(label, ["null", "true", "number", "float", "text"])
    if what == "text":
        return h.str("text") if text is None else h.choice("text", text)
    return h.int("number") if what == "number" else {"null": None, "true": True, "float": 1.5}[what]


def value(h, label, deep, text=None):
    """Any JSON value, of which only what `deep` looks at counts; ABSENT for none."""
    what = h.choice(label, ["absent", "scalar", "list", "deep"])
    if what == "absent":
        return ABSENT
    if what == "scalar":
        return scalar(h, label + ": scalar", text)
    if what == "list":
        return h.list(*[scalar(h, label + ": item")] * h.choice(label + ": items", [0, 1]))
    return deep()


ABSENT = object()


def record(h, **fields):
    return h.dict([(k, v) for k, v in fields.items() if v is not ABSENT])


def error_json(h, focus):
    """The JSON of an error.  focus: the member that is looked at."""
    def simple():
        return h.str("code")

    def details():
        def detail():
            t = value(h, "type", lambda: h.dict([]))
            v = value(h, "value", lambda: h.dict([])) if t is ABSENT or h.symbolic and is_sym(t) else h.str("value")
            return record(h, type=t, value=v)
        good = record(h, type="t.T", value="AA")
        return h.choice("details", [lambda: h.dict([("a", 1)]), lambda: h.list(detail()), lambda: h.list(good, detail()), lambda: h.list(h.list())])()
    if focus == "code":
        return record(h, code=value(h, "code", lambda: h.dict([("a", 1)])))
    if focus == "message":
        return record(h, code="aborted", message=value(h, "message", lambda: h.dict([("a", 1)])))
    return record(h, code=h.choice("code", ["aborted", "odd"]), details=value(h, "details kind", details, ["", "ab"]))


def any_json(h, focus):
    """What json.loads does with arbitrary bytes."""
    def loads(x):
        what = h.choice("json", ["malformed", "not text", "too deep", "value", "object"])
        if what == "malformed":
            raise ValueError("not JSON")
        if what == "not text":
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")
        if what == "too deep":
            raise RecursionError("JSON")
        if what == "value":
            return h.choice("which", [lambda: scalar(h, "scalar"), lambda: h.list(scalar(h, "item")), lambda: h.list()])()
        return focus()
    return loads


def no_other(h, what, k, e):
    from connectrpc.errors import ConnectError

    h.check(f"C05.{what}: a call succeeds or raises a ConnectError", k == "ok" or isinstance(e, ConnectError))


@target("C05", "peer_error", split={"mode": 2, "kind": 2, "focus": 3})
def peer_error(h):
    """Any response with a status other than 200."""
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", ["unary", "server_stream"])
    focus = h.choice("focus", ["code", "message", "details"])
    status = h.int("status", 100, 999) if focus == "code" else h.choice("status", [404, 999])
    body = h.bytes("body")
    h.ex.data["json_loads"] = any_json(h, lambda: error_json(h, focus))
    if h.test(h.eq(status, 200)):
        return
    k, e, got, _ = exchange(h, mode, "connect", kind, {"status": status, "headers": [("content-type", h.choice("content type", ["application/json", "text/html"]))], "body": body})
    h.check("C05.peer_error: not a success", k == "exc")
    no_other(h, "peer_error", k, e)


@target("C05", "peer_end", split={"mode": 2, "focus": 4}, reentry=True)
def peer_end(h):
    """Any end of a Connect stream, after any number of messages."""
    mode = h.choice("mode", ["async", "sync"])
    focus = h.choice("focus", ["code", "message", "details", "metadata"])
    payload = h.bytes("end")
    V.fact(V.slen(V.bexpr(payload)) < 2**32)

    def obj():
        if focus == "metadata":
            return record(h, metadata=value(h, "metadata", lambda: h.dict([(h.str("name"), h.choice("values", [lambda: scalar(h, "value", ["", "ab"]), lambda: h.list(), lambda: h.list(scalar(h, "v1"), scalar(h, "v2")), lambda: h.list(h.list())])())]), ["", "ab"]))
        return record(h, error=value(h, "error", lambda: error_json(h, focus), ["", "ab"]))
    h.ex.data["json_loads"] = any_json(h, obj)
    frames = Frames(h, {"end": frame(h, 2, payload)}, proto="connect")
    wire = Wire(h, mode, {"headers": [("content-type", CT["connect"])], "chunks": frames})
    cl = make_client(h, mode, "connect", http_client=wire, codec=codec(h))
    k, e = consume(h, mode, cl, "server_stream")
    no_other(h, "peer_end", k, e)


@target("C05", "peer_grpc", split={"mode": 2, "protocol": 2, "where": 3}, reentry=True)
def peer_grpc(h):
    """Any gRPC status, with a message and details of any form, after any number of messages."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", ["grpc", "grpc-web"])
    where = h.choice("where", ["trailers", "headers", "malformed"])
    how = h.choice("details", ["none", "any"])
    items = [("grpc-status", h.field("grpc-status"))] + ([("grpc-message", h.field("grpc-message"))] if how == "none" else [("grpc-status-details-bin", h.field("grpc-status-details-bin"))])

    def from_binary(x):
        from connectrpc._gen.status_pb import Status

        what = h.choice("protobuf", ["malformed", "status"])
        if what == "malformed":
            raise ValueError("not a message")
        return Status(code=h.choice("code", [0, 5, 99]), message="m", details=[])
    h.ex.data["status_from_binary"] = from_binary
    headers = [("content-type", CT[proto])]
    trailers, ends = [], {"whole": b"", "cut": b""}
    if where == "headers":
        headers += items
    elif where == "trailers" and proto == "grpc":
        trailers = items
    elif where == "trailers":
        text_ = b""
        for n, v in items:
            text_ = h.cat(text_, (n + ": ").encode(), h.call(v.encode), b"\r\n")
        ends = {"end": frame(h, 128, text_)}
        V.fact(V.slen(V.bexpr(text_)) < 2**32)
    elif proto == "grpc-web":
        ends = {"end": frame(h, 128, h.choice("text", [b"", b"\r\n", b"nocolon", b"\xff: x", b": :\r\n", b"grpc-status", b"grpc-status: \xff", b"grpc-status:0\r\n\r\ngrpc-status: 0"]))}
    else:
        trailers = [(h.choice("name", ["x", "grpc-message", "grpc-status-details-bin"]), h.field("value"))]
    frames = Frames(h, ends, proto=proto)
    wire = Wire(h, mode, {"headers": headers, "chunks": frames, "trailers": trailers})
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h))
    k, e = consume(h, mode, cl, "server_stream")
    no_other(h, "peer_grpc", k, e)


@target("C05", "peer_headers", split={"mode": 2, "protocol": 3, "kind": 3, "part": 2})
def peer_headers(h):
    """Any content type, and any compression named in a response."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["unary", "client_stream", "server_stream"])
    part = h.choice("part", ["type", "encoding"])
    plain_ = proto == "connect" and kind == "unary"
    status, flag = 200, 0
    if part == "type":
        status = h.choice("status", [200, 302])
        ct = h.field("content-type")
        if plain_:
            # any type without parameters
            V.fact(z3.Not(z3.Contains(V.sexp(ct), V.sval(";"))))
        headers = [("content-type", ct)] if h.choice("typed", [True, False]) else []
        if not headers:
            headers.append(("trailer-" + h.str("name"), h.field("value")))
    else:
        flag = h.choice("flag", [0, 1, 4, 255 - 130])
        headers = [("content-type", "application/proto" if plain_ else CT[proto]), (h.choice("encoding header", ["content-encoding", "connect-content-encoding", "grpc-encoding"]), h.field("encoding"))]

    def loads(x):
        raise ValueError("not JSON")
    h.ex.data["json_loads"] = loads
    payload = h.bytes("payload")
    V.fact(V.slen(V.bexpr(payload)) < 2**32)
    k, e, got, _ = exchange(h, mode, proto, kind, {"status": status, "headers": headers, "body": payload if plain_ else frame(h, flag, payload), "trailers": [("grpc-status", "0")]}, codec=codec(h, may_fail=True), accept_compression=[compression(h)])
    no_other(h, "peer_headers", k, e)
