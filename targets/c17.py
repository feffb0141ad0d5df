"""C17: a call sent as GET is the call sent as POST."""
from pyvc.harness import *
from targets.world import *


class Handled:
    def __init__(self):
        self.requests = []
        self.headers = []
        self.timeouts = []


def handler(h, mode, seen, act):
    def note(request, ctx):
        seen.requests.append(request)
        seen.headers.append(ctx.request_headers)
        h.call(ctx.response_headers.add, "x-response", "a")
        h.call(ctx.response_trailers.add, "x-trailer", "b")
        return act()
    if mode == "async":
        async def fn(request, ctx):
            return note(request, ctx)
    else:
        def fn(request, ctx):
            return note(request, ctx)
    return fn


@target("C17", "equivalent", replay=True, split={"client": 2, "server": 2, "compression": 4}, unroll=40)
def equivalent(h):
    """Every message, codec, compression, header value and outcome."""
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    cmode = h.choice("client", ["async", "sync"])
    smode = h.choice("server", ["async", "sync"])
    comp = h.choice("compression", [None, "gzip", "br", "unsupported"])
    cname = h.choice("codec", ["proto", "json"])
    outcome = h.choice("handler", ["returns", "raises"])
    accept = h.choice("accept", [False, True])
    m = message(h, "request")
    r = message(h, "response")
    text_ = h.str("error_message")
    values = [h.str("value"), h.str("value")]
    sc = [compression(h, n, False) for n in ("gzip", "br")]
    results = []
    for get in (False, True):
        seen = Handled()

        def act():
            if outcome == "raises":
                raise h.new(ConnectError, Code.ABORTED, text_)
            return r
        app = make_app(h, smode, [("/p.S/M", endpoint(h, smode, "unary", handler(h, smode, seen, act), method("unary", "NO_SIDE_EFFECTS")))],
                       codecs=[codec(h, "proto"), codec(h, "json")], compressions=sc)
        requests = []
        from connectrpc.request import Headers

        uh = h.new(Headers, [("x-a", values[0]), ("X-A", values[1]), ("x-b", "b")])
        kw = dict(codec=codec(h, cname), send_compression=compression(h, comp, False) if comp else None, headers=uh, timeout_ms=None,
                  method=method("unary", "NO_SIDE_EFFECTS"), request=[m], use_get=get)
        if accept:
            kw["accept_compression"] = sc
        k, e, got, wire = exchange(h, cmode, "connect", "unary", linked(h, smode, app, sc, requests), **kw)
        (how, url, sent, content), body, x = requests[0]
        results.append((k, e, got, seen, x))
        h.check("C17: one request", len(requests) == 1)
        h.check("C17: the HTTP method", how == ("GET" if get else "POST"))
        if get:
            h.check("C17: no body and no content type is sent", content is None and "content-type" not in sent)
    (pk, pe, pgot, pseen, px), (gk, ge, ggot, gseen, gx) = results
    if comp == "unsupported":
        h.check("C17: an unsupported compression fails both", pk == gk == "exc" and not pseen.requests and not gseen.requests)
        h.check("C17: in the same way", ge.code == pe.code)
        return
    h.check("C17: the handler is called once", len(gseen.requests) == 1 and len(pseen.requests) == 1)
    h.check("C17: with the same message", h.and_(h.eq(gseen.requests[0], m), h.eq(pseen.requests[0], m)))
    for n in ("x-a", "x-b"):
        a, b = (h.call(s.headers[0].getall, n) for s in (gseen, pseen))
        h.check("C17: and the same metadata", len(a) == len(b) and h.test(h.eq(list(a), list(b))))
    if outcome == "raises":
        h.cover("error")
        h.check("C17: the same error", gk == pk == "exc" and ge.code == pe.code == Code.ABORTED and h.test(h.and_(h.eq(ge.message, text_), h.eq(pe.message, text_))))
    else:
        h.cover("response")
        h.check("C17: the same response", gk == pk == "ok" and h.test(h.and_(h.eq(ggot[0], r), h.eq(pgot[0], r))))
    for n in ("x-response", "trailer-x-trailer"):
        h.check("C17: the same response metadata", gx.header(h, n) == px.header(h, n) and len(gx.header(h, n)) == 1)


@target("C17", "query", replay=True)
def query(h):
    """What the query of a GET carries."""
    import base64
    import urllib.parse

    cmode = h.choice("client", ["async", "sync"])
    comp = h.choice("compression", [None, "gzip"])
    cname = h.choice("codec", ["proto", "json"])
    m = message(h, "request")
    data = encoded(h, m)
    c = compression(h, comp, False) if comp else None
    if c is not None:
        data = h.call(c.compress, data)
    requests = []

    def reply(req):
        requests.append(req)
        return {"headers": [("content-type", "application/" + cname)], "body": b"r"}
    k, e, got, wire = exchange(h, cmode, "connect", "unary", reply, codec=codec(h, cname), send_compression=c, method=method("unary", "NO_SIDE_EFFECTS"), request=[m], use_get=True)
    how, url, sent, content = requests[0]
    h.check("C17.query: the call succeeds", k == "ok" and how == "GET")
    base, _, q = h.call(url.partition, "?")
    h.check("C17.query: the path", h.eq(base, "http://h.example/p.S/M"))
    p = h.call(urllib.parse.parse_qs, q, keep_blank_values=True)

    def only(n):
        return p[n][0] if n in p and len(p[n]) == 1 else None
    h.check("C17.query: the codec name", h.eq(only("encoding"), cname))
    h.check("C17.query: the compression name, when one is used", only("compression") == comp or comp is None and only("compression") == "identity")
    h.check("C17.query: the message is in URL-safe base64", h.eq(only("base64"), "1"))
    t = only("message")
    h.check("C17.query: and is the encoded message", h.eq(h.call(base64.urlsafe_b64decode, h.call("".join, [t, "==="])), data))
