"""C15: unary request bodies are read whole, or the RPC fails without the handler.

Any number of pieces of any sizes (the loops are cut; what has been received is ghost state)."""
from pyvc.harness import *
from targets.world import *


class Rx(Ghost):
    """receive() of an ASGI server: any pieces, then the last one or a disconnect."""

    _terms = ("got",)

    def __init__(self, h):
        self.h, self.got, self.whole, self.gone = h, b"", False, False

    async def __call__(self):
        h = self.h
        if self.whole is True or self.gone is True:
            return h.dict([("type", "http.disconnect")])
        kind = h.ex.choice(4, "received")
        if kind == 0:
            self.gone = True
            return h.dict([("type", "http.disconnect")])
        b = h.bytes("piece")
        self.got = h.cat(self.got, b)
        m = [("type", "http.request"), ("body", b)]
        if kind == 1:
            m.append(("more_body", True))
            return h.dict(m)
        self.whole = True
        if kind == 2:
            m.append(("more_body", False))
        return h.dict(m)


def handler(h, mode, calls):
    if mode == "async":
        async def fn(request, ctx):
            calls.append(request)
            return h.msg("response")
    else:
        def fn(request, ctx):
            calls.append(request)
            return h.msg("response")
    return fn


def connect_failure(h, x):
    h.check("C15: the RPC fails", x.status is not None and x.status != 200)


@target("C15", "asgi", reentry=True)
def asgi(h):
    calls = []
    enc = h.choice("encoding", ["absent", "identity", "gzip"])
    comp = compression(h, may_fail=False)
    app = make_app(h, "async", [("/p.S/M", endpoint(h, "async", "unary", handler(h, "async", calls)))], compressions=[comp])
    rx = Rx(h)
    hs = [("content-type", "application/proto")] + ([("content-encoding", enc)] if enc != "absent" else [])
    x = serve(h, "async", app, headers=hs, receive=rx)
    if not rx.whole:
        h.check("C15.asgi: a handler never gets part of a body", calls == [])
        h.check("C15.asgi: the RPC fails", x.status not in (None, 200))
        return
    body = V.bexpr(rx.got)
    if enc == "gzip" and h.test(V.wrapb(V.slen(body) > 0)):
        body = uf("decompress_gzip", V.S, V.S)(body)
    h.check("C15.asgi: the handler is called once", len(calls) == 1)
    h.check("C15.asgi: the message is decoded from exactly the bytes received, in order", h.eq(calls[0], MsgVal(decode_e(body))))
    h.check("C15.asgi: the RPC succeeds", x.status == 200 and x.raised is None)


class Input(Ghost):
    """wsgi.input: any read returns any non-empty part of what is left, of at most the size
    that was asked for, until the end."""

    _terms = ("got",)

    def __init__(self, h, limit=None):
        self.h, self.got, self.limit, self.ended = h, b"", limit, False

    def read(self, n=-1):
        h = self.h
        n = V.iexp(n)
        if self.limit is not None and self.ended is not True:
            h.check("C15.wsgi: no more is read than was announced", z3.And(n >= 0, V.slen(V.bexpr(self.got)) + n <= V.iexp(self.limit)))
        if self.ended is True or h.ex.choice(2, "more") == 1:
            self.ended = True
            return b""
        b = h.bytes("piece")
        V.fact(V.slen(V.bexpr(b)) > 0)
        h.assume(V.wrapb(z3.Or(n < 0, V.slen(V.bexpr(b)) <= n)))
        self.got = h.cat(self.got, b)
        return b

    def readline(self, n=-1):
        raise Unsupported("wsgi.input.readline")


@target("C15", "wsgi", split={"announced": 4, "encoding": 3}, reentry=True)
def wsgi(h):
    calls = []
    enc = h.choice("encoding", ["absent", "identity", "gzip"])
    ann = h.choice("announced", ["positive", "zero", "empty", "absent"])
    comp = compression(h, may_fail=False)
    cl = h.int("content_length", 1) if ann == "positive" else None
    # the connection is drained after the response
    inp = Input(h, None)
    inp.limit = cl
    hs = [("content-type", "application/proto")] + ([("content-encoding", enc)] if enc != "absent" else [])
    kw = {"content_length": h.call(str, cl) if ann == "positive" else "0" if ann == "zero" else "" if ann == "empty" else None}

    def done(*a):
        inp.limit = None
    if cl is not None:
        h.invariant("no more is read than was announced", lambda L, st: V.slen(V.bexpr(inp.got)) <= V.iexp(cl) if inp.limit is not None else None)
    at_call = []

    def fn(request, ctx):
        calls.append(request)
        at_call.append((inp.got, inp.ended))
        inp.limit = None
        return h.msg("response")
    app = make_app(h, "sync", [("/p.S/M", endpoint(h, "sync", "unary", fn))], compressions=[comp])
    x = serve(h, "sync", app, headers=hs, wsgi_input=inp, **kw)
    if not calls:
        h.check("C15.wsgi: the RPC fails only if the body was cut short", ann == "positive" and inp.ended is True)
        h.check("C15.wsgi: the RPC fails", x.status not in (None, 200))
        return
    got, ended = at_call[0]
    h.check("C15.wsgi: the handler is called once", len(calls) == 1)
    body = V.bexpr(got)
    if ann == "positive":
        h.check("C15.wsgi: the announced number of bytes was read", V.slen(body) == V.iexp(cl))
    else:
        h.check("C15.wsgi: the body was read to its end", ended is True)
    if enc == "gzip" and h.test(V.wrapb(V.slen(body) > 0)):
        body = uf("decompress_gzip", V.S, V.S)(body)
    h.check("C15.wsgi: the message is decoded from exactly the bytes received, in order", h.eq(calls[0], MsgVal(decode_e(body))))
    h.check("C15.wsgi: the RPC succeeds", x.status == 200 and x.raised is None)
