"""C11: only requests that are valid for the method reach a handler."""
from pyvc.harness import *
from targets.world import *


class Witness:
    """An interceptor of every kind that notes each call and goes on."""

    def __init__(self, log):
        self.log = log

    async def intercept_unary(self, call_next, request, ctx):
        self.log.append("interceptor")
        return await call_next(request, ctx)

    async def intercept_client_stream(self, call_next, request, ctx):
        self.log.append("interceptor")
        return await call_next(request, ctx)

    async def intercept_server_stream(self, call_next, request, ctx):
        self.log.append("interceptor")
        async for x in call_next(request, ctx):
            yield x

    async def intercept_bidi_stream(self, call_next, request, ctx):
        self.log.append("interceptor")
        async for x in call_next(request, ctx):
            yield x


class WitnessSync:
    def __init__(self, log):
        self.log = log

    def intercept_unary_sync(self, call_next, request, ctx):
        self.log.append("interceptor")
        return call_next(request, ctx)

    def intercept_client_stream_sync(self, call_next, request, ctx):
        self.log.append("interceptor")
        return call_next(request, ctx)

    def intercept_server_stream_sync(self, call_next, request, ctx):
        self.log.append("interceptor")
        yield from call_next(request, ctx)

    def intercept_bidi_stream_sync(self, call_next, request, ctx):
        self.log.append("interceptor")
        yield from call_next(request, ctx)


class Noting:
    """A list of calls that tells which handler was called."""

    def __init__(self, log, name):
        self.log, self.name = log, name

    def append(self, m):
        self.log.append(self.name)


def app_of(h, mode, methods, log, codecs=("proto",)):
    """methods: [(name, kind, level)]"""
    eps = [("/p.S/" + n, endpoint(h, mode, k, collecting(h, mode, k, Noting(log, n)), method(k, lv, n))) for n, k, lv in methods]
    return make_app(h, mode, eps, codecs=[codec(h, c) for c in codecs], compressions=[compression(h)], interceptors=[Witness(log) if mode == "async" else WitnessSync(log)])


def request_of(h, proto, kind):
    return b"" if proto == "connect" and kind == "unary" else frame(h, 0, b"m")


def type_of(proto, kind):
    return "application/proto" if proto == "connect" and kind == "unary" else CT[proto]


def called(h, log, name):
    h.check(f"C11: the handler is called, within the interceptors", log == ["interceptor", name])


def rejected(h, x, log, status, what):
    h.check(f"C11: {what}: neither handler nor interceptor is called", log == [])
    h.check(f"C11: {what}: the status", x.raised is None and h.test(h.eq(x.status, status)))


def code_of(h, x):
    import json

    d = h.call(json.loads, x.body[0])
    return d["code"]


@target("C11", "path", replay=True, split={"mode": 2, "mounted": 3})
def path(h):
    """Any path, at any mount prefix."""
    mode = h.choice("mode", ["async", "sync"])
    at = h.choice("mounted", ["root", "prefix", "service"])
    log = []
    app = app_of(h, mode, [("M", "unary", "UNKNOWN"), ("N", "unary", "UNKNOWN")], log)
    p = h.str("path")
    if at == "root":
        mount = ""
    elif mode == "async":
        # the server gives the whole path
        mount = h.str("mount") if at == "prefix" else "/p.S"
    else:
        # the server gives the path below the mount
        mount = "/api" if at == "prefix" else "/p.S"
    x = serve(h, mode, app, path=p, mount=mount, headers=[("content-type", "application/proto")])
    full = [p]
    for n in ("M", "N"):
        own = "/p.S/" + n
        here = h.eq(p, own)
        if mode == "async" and at != "root":
            here = h.or_(here, h.eq(p, h.call("".join, [mount, own])))
        if mode == "sync" and at == "service":
            here = h.or_(here, h.eq(p, "/" + n))
        if h.test(here):
            h.cover("known")
            h.check("C11.path: the handler of the path is called", log == ["interceptor", n])
            return
    h.cover("unknown")
    rejected(h, x, log, 404, "an unknown path")


@target("C11", "http_method", replay=True, split={"mode": 2, "protocol": 3}, unroll=12)
def http_method(h):
    """Any HTTP method, for every kind, protocol and idempotency level."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    level = h.choice("level", ["UNKNOWN", "NO_SIDE_EFFECTS", "IDEMPOTENT"])
    log = []
    app = app_of(h, mode, [("M", kind, level)], log)
    verb = h.str("http_method")
    x = serve(h, mode, app, http_method=verb, query="message=&encoding=proto", headers=[("content-type", type_of(proto, kind))], body=[request_of(h, proto, kind)])
    get_ok = proto == "connect" and kind == "unary" and level == "NO_SIDE_EFFECTS"
    if h.test(h.eq(verb, "POST")) or get_ok and h.test(h.eq(verb, "GET")):
        called(h, log, "M")
        return
    h.cover("refused")
    rejected(h, x, log, 405, "another HTTP method")
    allow = x.header(h, "allow")
    h.check("C11.http_method: the accepted methods are listed", len(allow) == 1 and sorted(a.strip() for a in allow[0].split(",")) == (["GET", "POST"] if get_ok else ["POST"]))


@target("C11", "get_without_type", replay=True)
def get_without_type(h):
    """A GET has no content type."""
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", KINDS)
    level = h.choice("level", ["UNKNOWN", "NO_SIDE_EFFECTS", "IDEMPOTENT"])
    log = []
    app = app_of(h, mode, [("M", kind, level)], log)
    x = serve(h, mode, app, http_method="GET", query="message=&encoding=proto")
    if kind == "unary" and level == "NO_SIDE_EFFECTS":
        called(h, log, "M")
    else:
        rejected(h, x, log, 405, "GET")
        h.check("C11.get_without_type: the accepted methods are listed", x.header(h, "allow") == ["POST"])


GRPC_TYPES = ["application/grpc", "application/grpc+proto", "application/grpc-web", "application/grpc-web+proto"]


@target("C11", "content_type", replay=True, split={"mode": 2, "kind": 4}, unroll=12)
def content_type(h):
    """Any content type, in any letter case, with or without parameters."""
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", KINDS)
    names = h.choice("codecs", [("proto",), ("json", "proto")])
    own = "application/" if kind == "unary" else "application/connect+"
    log = []
    app = app_of(h, mode, [("M", kind, "UNKNOWN")], log, names)
    case = h.choice("case", ["lower", "mixed", "some"])
    if case == "lower":
        ct = low = h.lower_str("content_type", ";")
    elif case == "mixed":
        # gRPC types: below, in some letter cases
        ct, low = h.cased("content_type", ";")
        h.assume(h.not_(h.call(low.startswith, "application/grpc")))
    else:
        low = h.choice("type", [own + n for n in names] + GRPC_TYPES + ["application/grpc+json", "application/grpcx", "application/grpc-web+text", own + "x"])
        ct = h.choice("letters", [str.upper, str.title])(low)
    exact = h.eq(ct, low)
    params = h.choice("parameters", [False, True])
    sent = h.call("".join, [ct, ";", h.str("parameters")]) if params else ct
    named = [own + n for n in names]
    framed = GRPC_TYPES + ["application/grpc+" + n for n in names] + ["application/grpc-web+" + n for n in names]
    grpc_like = h.test(h.call(ct.startswith, "application/grpc"))
    # what is sent fits the type
    body = request_of(h, "grpc" if grpc_like else "connect", kind)
    x = serve(h, mode, app, headers=[("content-type", sent)], body=[body])
    if any(h.test(h.eq(low, n)) for n in named):
        h.cover("accepted")
        called(h, log, "M")
        return
    if any(h.test(h.eq(low, n)) for n in framed):
        if not params and h.test(exact):
            h.cover("accepted gRPC")
            called(h, log, "M")
        return
    if any(h.test(h.eq(low, n)) for n in names):
        return  # the bare name of a codec, whatever is made of it
    h.cover("refused")
    rejected(h, x, log, 415, "a type that names no codec")


@target("C11", "no_content_type", replay=True)
def no_content_type(h):
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", KINDS)
    log = []
    app = app_of(h, mode, [("M", kind, "UNKNOWN")], log)
    x = serve(h, mode, app, headers=h.choice("headers", [[], [("content-type", "")], [("content-type", "  ")]]), body=[frame(h, 0, b"m")])
    rejected(h, x, log, 415, "no content type")


@target("C11", "get_encoding", replay=True)
def get_encoding(h):
    """A GET names its codec in the query."""
    import urllib.parse

    mode = h.choice("mode", ["async", "sync"])
    names = h.choice("codecs", [("proto",), ("json", "proto")])
    log = []
    app = app_of(h, mode, [("M", "unary", "NO_SIDE_EFFECTS")], log, names)
    how = h.choice("encoding", ["any", "absent"])
    items = [("message", "")]
    enc = None
    if how == "any":
        enc = h.str("encoding_name")
        items.append(("encoding", enc))
    q = h.call(urllib.parse.urlencode, h.dict(items))
    x = serve(h, mode, app, http_method="GET", query=q)
    if enc is not None and any(h.test(h.eq(enc, n)) for n in names):
        called(h, log, "M")
        return
    h.check("C11.get_encoding: neither handler nor interceptor is called", log == [])
    h.check("C11.get_encoding: it is refused", x.raised is None and not h.test(h.eq(x.status, 200)))


@target("C11", "version", replay=True, split={"mode": 2})
def version(h):
    """Any Connect protocol version."""
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", KINDS)
    verb = h.choice("http_method", ["POST", "GET"] if kind == "unary" else ["POST"])
    log = []
    app = app_of(h, mode, [("M", kind, "NO_SIDE_EFFECTS" if kind == "unary" else "UNKNOWN")], log)
    v = h.str("version")
    hs = [("connect-protocol-version", v)] + ([("content-type", type_of("connect", kind))] if verb == "POST" else [])
    x = serve(h, mode, app, http_method=verb, query="message=&encoding=proto" if verb == "GET" else "", headers=hs, body=[request_of(h, "connect", kind)])
    if h.test(h.eq(v, "1")):
        called(h, log, "M")
        return
    rejected(h, x, log, 400, "another version")
    h.check("C11.version: invalid_argument", h.eq(code_of(h, x), "invalid_argument"))


@target("C11", "timeout", replay=True, split={"mode": 2})
def timeout(h):
    """Any timeout text of a Connect request."""
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", KINDS)
    verb = h.choice("http_method", ["POST", "GET"] if kind == "unary" else ["POST"])
    log = []
    app = app_of(h, mode, [("M", kind, "NO_SIDE_EFFECTS" if kind == "unary" else "UNKNOWN")], log)
    how = h.choice("text", ["digits", "long", "letters", "any"])
    if how == "digits":
        t = h.digits("timeout", 10)
    else:
        t = h.str("timeout")
    if how == "long":
        h.assume(h.len(t) > 10)
    if how == "letters":
        t = h.call("".join, [t, h.choice("letter", ["x", ".", "e5", "m", "-"])])
    hs = [("connect-timeout-ms", t)] + ([("content-type", type_of("connect", kind))] if verb == "POST" else [])
    x = serve(h, mode, app, http_method=verb, query="message=&encoding=proto" if verb == "GET" else "", headers=hs, body=[request_of(h, "connect", kind)])
    if how == "digits":
        called(h, log, "M")
        return
    if how == "any" and log:
        # read as a number, as int() reads numbers
        called(h, log, "M")
        if not h.symbolic and t:
            int(t)
        return
    rejected(h, x, log, 400, "a bad timeout")
    h.check("C11.timeout: invalid_argument", h.eq(code_of(h, x), "invalid_argument"))
