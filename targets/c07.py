"""C07: metadata, end to end."""
from pyvc.harness import *
from targets.world import *

REQUEST_OWNED = ["content-type", "content-length", "content-encoding", "accept-encoding", "connect-protocol-version", "connect-timeout-ms",
                 "connect-content-encoding", "connect-accept-encoding", "grpc-timeout", "grpc-encoding", "grpc-accept-encoding",
                 "te", "user-agent", "host"]
RESPONSE_OWNED = ["content-type", "content-encoding", "connect-content-encoding", "grpc-encoding", "connect-accept-encoding", "grpc-accept-encoding", "accept-encoding", "vary",
                  "grpc-status", "grpc-message", "grpc-status-details-bin"]


class Seen:
    def __init__(self):
        self.headers = []


def handler(h, mode, kind, seen, act):
    """A handler of any kind: act(ctx) sets metadata; returns whether to raise."""
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    def fail():
        raise h.new(ConnectError, Code.ABORTED, "no")
    if mode == "async":
        if kind == "unary":
            async def fn(request, ctx):
                if act(ctx):
                    fail()
                return message(h, "response")
        elif kind == "client_stream":
            async def fn(request, ctx):
                async for _ in request:
                    pass
                if act(ctx):
                    fail()
                return message(h, "response")
        else:
            async def fn(request, ctx):
                f = act(ctx)
                yield message(h, "response")
                if f:
                    fail()
    else:
        if kind == "unary":
            def fn(request, ctx):
                if act(ctx):
                    fail()
                return message(h, "response")
        elif kind == "client_stream":
            def fn(request, ctx):
                for _ in request:
                    pass
                if act(ctx):
                    fail()
                return message(h, "response")
        else:
            def fn(request, ctx):
                f = act(ctx)
                yield message(h, "response")
                if f:
                    fail()
    return fn


def got(h, headers, name):
    return list(h.call(headers.getall, name))


SPLIT = {"client": 2, "server": 2, "protocol": 3, "kind": 4}


@target("C07", "request", replay=True, split=SPLIT, unroll=40)
def request(h):
    """What the caller sets, the handler sees."""
    from connectrpc.request import Headers

    cmode = h.choice("client", ["async", "sync"])
    smode = h.choice("server", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    form = h.choice("form", ["headers", "mapping"])
    values = [h.field("value") for _ in range(3)]
    other = h.field("other")
    if smode == "async":
        names = h.variants("name", 3)
        low = h.call(names[0].lower)
        for n in REQUEST_OWNED + ["x-b"]:
            h.assume(h.not_(h.eq(low, n)))
    else:
        names = ["x-name", "X-Name", "X-NAME"]
        low = "x-name"
    if form == "headers":
        uh = h.new(Headers, [(names[0], values[0]), ("x-b", other), (names[1], values[1]), (names[2], values[2])])
        want = values
        before = list(h.call(uh.allitems))
    else:
        uh = h.dict([(names[0], values[0]), ("x-b", other)])
        want = values[:1]
        before = list(uh.items())
    seen = Seen()

    def act(ctx):
        seen.headers.append(ctx.request_headers)
        return False
    app = make_app(h, smode, [("/p.S/M", endpoint(h, smode, kind, handler(h, smode, kind, seen, act)))])
    k, e, msgs, wire = exchange(h, cmode, proto, kind, linked(h, smode, app), headers=uh, timeout_ms=None)
    h.check("C07.request: the call succeeds", k == "ok")
    h.check("C07.request: the handler is called once", len(seen.headers) == 1)
    a = got(h, seen.headers[0], low)
    if smode == "async":
        h.check("C07.request: the same values in the same order", len(a) == len(want) and h.test(h.eq(a, want)))
    else:
        # CGI has one value per name
        h.check("C07.request: the same values in the same order", len(a) == 1 and h.test(h.eq(a[0], h.call(",".join, h.list(*want)))))
    b = got(h, seen.headers[0], "x-b")
    h.check("C07.request: and of every other header", len(b) == 1 and h.test(h.eq(b[0], other)))
    after = list(h.call(uh.allitems)) if form == "headers" else list(uh.items())
    h.check("C07.request: the caller's headers are not modified", len(after) == len(before) and h.test(h.eq([x for kv in after for x in kv], [x for kv in before for x in kv])))


@target("C07", "response", replay=True, split=SPLIT, unroll=40)
def response(h):
    """What the handler sets, the caller sees, as what it is; also when the RPC fails."""
    from connectrpc.client import ResponseMetadata

    cmode = h.choice("client", ["async", "sync"])
    smode = h.choice("server", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    fails = h.choice("fails", [False, True])
    hv = [h.field("header_value") for _ in range(2)]
    tv = [h.field("trailer_value") for _ in range(3)]
    hn = h.variants("header", 2, free=":")
    tn = h.variants("trailer", 2, free=":")
    hlow, tlow = h.call(hn[0].lower), h.call(tn[0].lower)
    for n in RESPONSE_OWNED + ["x-t"]:
        h.assume(h.not_(h.eq(hlow, n)))
        h.assume(h.not_(h.eq(tlow, n)))
    h.assume(h.not_(h.call(hlow.startswith, "trailer-")))
    h.assume(h.len(hlow) > 0)
    h.assume(h.len(tlow) > 0)
    if h.test(h.eq(hlow, tlow)):
        h.cover("the same name")

    def act(ctx):
        h.call(ctx.response_headers.add, hn[0], hv[0])
        h.call(ctx.response_trailers.add, tn[0], tv[0])
        h.call(ctx.response_headers.add, hn[1], hv[1])
        h.call(ctx.response_trailers.add, "x-t", tv[2])
        h.call(ctx.response_trailers.add, tn[1], tv[1])
        return fails
    app = make_app(h, smode, [("/p.S/M", endpoint(h, smode, kind, handler(h, smode, kind, None, act)))])
    with ResponseMetadata() as meta:
        k, e, msgs, wire = exchange(h, cmode, proto, kind, linked(h, smode, app), timeout_ms=None)
    h.check("C07.response: the call ends as the handler", k == ("exc" if fails else "ok"))
    for what, headers, want in (("headers", meta.headers, hv), ("trailers", meta.trailers, tv[:2])):
        name, other = (hlow, tlow) if what == "headers" else (tlow, hlow)
        a = got(h, headers, name)
        h.check(f"C07.response: the {what} of a name, in order", len(a) == len(want) and h.test(h.eq(a, want)))
        if not h.test(h.eq(hlow, tlow)):
            h.check(f"C07.response: the {what} are of the right kind", len(got(h, headers, other)) == 0)
    a = got(h, meta.trailers, "x-t")
    h.check("C07.response: every other trailer", len(a) == 1 and h.test(h.eq(a[0], tv[2])))
    h.check("C07.response: no header that was set as a trailer", len(got(h, meta.headers, "x-t")) == 0)


OWNED = {
    ("connect", True): ["content-type", "connect-protocol-version", "content-encoding", "accept-encoding", "connect-timeout-ms"],
    ("connect", False): ["content-type", "connect-protocol-version", "connect-content-encoding", "connect-accept-encoding", "connect-timeout-ms"],
    ("grpc", True): ["content-type", "te", "grpc-encoding", "grpc-accept-encoding", "grpc-timeout"],
}
OWNED["grpc", False] = OWNED["grpc-web", True] = OWNED["grpc-web", False] = OWNED["grpc", True]


@target("C07", "owned", replay=True, split={"client": 2, "protocol": 3, "kind": 4}, unroll=40)
def owned(h):
    """What the protocol owns carries the library's values, whatever the caller sets."""
    from connectrpc.code import Code
    from connectrpc.request import Headers

    cmode = h.choice("client", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    compressed = h.choice("compressed", [False, True])
    get = kind == "unary" and proto == "connect" and h.choice("get", [False, True])
    form = h.choice("form", ["headers", "mapping", "headers given twice"])
    own = OWNED[proto, kind == "unary"]
    names = h.variants("name", 2)
    low = h.call(names[0].lower)
    values = [h.field("value") for _ in range(2)]
    t = h.int("timeout", 1, 10**7)
    sent = []
    for given in (False, True):
        if not given:
            uh = None
        elif form == "mapping":
            uh = h.dict([(names[0], values[0])])
        else:
            uh = h.new(Headers, [(names[0], values[0])] + ([(names[1], values[1])] if "twice" in form else []))

        def reply(req):
            sent.append(req)
            return OSError("enough")
        k, e, _, _ = exchange(h, cmode, proto, kind, reply, headers=uh, timeout_ms=t, send_compression=compression(h, "gzip", False) if compressed else None,
                 accept_compression=[compression(h, "gzip", False), compression(h, "br", False)], method=method(kind, "NO_SIDE_EFFECTS"), **({"use_get": True} if get else {}))
        if len(sent) == (1 if given else 0):
            # over before anything was sent
            h.check("C07.owned: a call that sends nothing timed out", k == "exc" and not isinstance(e, OSError) and getattr(e, "code", None) in (Code.DEADLINE_EXCEEDED, Code.CANCELED))
            return
    h.check("C07.owned: a request each", len(sent) == 2)
    base, given = (r[2] for r in sent)
    for n in own:
        a, b = got(h, base, n), got(h, given, n)
        if n.endswith(("timeout", "timeout-ms")):
            h.check(f"C07.owned: one {n}", len(a) == len(b) == 1)
            if h.test(h.eq(low, n)):
                # it is not the caller's: it is the one of the same timeout
                h.check(f"C07.owned: the {n} is the library's", h.eq(a[0], b[0]))
            continue
        h.check(f"C07.owned: the {n} is the library's", len(a) == len(b) and h.test(h.eq(a, b)) and len(a) <= 1)
    if get:
        h.check("C07.owned: a GET has no content type", h.eq(sent[1][0], "GET") and not got(h, given, "content-type"))


@target("C07", "status", replay=True, split=SPLIT, unroll=40)
def status(h):
    """Trailers given by a handler do not replace the status."""
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    cmode = h.choice("client", ["async", "sync"])
    smode = h.choice("server", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    fails = h.choice("fails", [False, True])
    names = h.variants("trailer", 2, free=":")
    values = [h.field("value") for _ in range(2)]
    h.assume(h.len(h.call(names[0].lower)) > 0)

    def act(ctx):
        h.call(ctx.response_trailers.add, names[0], values[0])
        h.call(ctx.response_trailers.add, names[1], values[1])
        return fails
    app = make_app(h, smode, [("/p.S/M", endpoint(h, smode, kind, handler(h, smode, kind, None, act)))])
    k, e, msgs, wire = exchange(h, cmode, proto, kind, linked(h, smode, app), timeout_ms=None)
    if fails:
        h.check("C07.status: the error is the handler's", k == "exc" and isinstance(e, ConnectError) and e.code == Code.ABORTED)
        h.check("C07.status: and so is its message", h.eq(e.message, "no"))
        h.check("C07.status: and its details", len(list(e.details)) == 0)
    else:
        h.check("C07.status: the call succeeds", k == "ok" and len(msgs) == 1)
