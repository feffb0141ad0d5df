"""C07: metadata, executed."""
from oracle.core import case
from oracle.kit import *

HN = ["x-a", "X-B", "x-long-name-1", "Authorization", "x-d", "foo-bin", "x.y", "x-e"]
HV = ["v", "", "a b", "a, b", "colon: x", "k=v; q=1", "\"quoted\"", "%20%", "0", "~tilde~", "AAEC", "x" * 200, "trailing,"]


def metadata(r, n=5):
    return [(r.choice(HN), r.choice(HV)) for _ in range(r.randrange(n))]


def per_name(items, only=None):
    out = {}
    for k, v in items:
        if only is None or k.lower() in only:
            out.setdefault(k.lower(), []).append(v)
    return out


@case("C07", bound="random request, response and trailer metadata (0-4 entries each, repeated names), success and failure, every protocol, kind and mode")
async def exact(o):
    names = {n.lower() for n in HN}
    for i in o.times(900):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        req, rh, rt = metadata(r), metadata(r), metadata(r)
        fail, n = r.random() < .4, r.randrange(3) if kind in ("server", "bidi") else 1
        as_dict = r.random() < .3

        def beh(q, c):
            for k, v in rh:
                c.response_headers.add(k, v)
            for k, v in rt:
                c.response_trailers.add(k, v)
            for j in range(n if not fail or kind in ("server", "bidi") else 0):
                yield MO(b"m")
            if fail:
                raise ConnectError(r.choice(ALL_CODES), "boom", details(("a.B", b"x")) if r.random() < .5 else ())

        svc = Service(beh)
        e = E2E(mode, proto, svc, server=dict(compressions=[XorCompression()]), client_kw=dict(accept_compression=r.choice([[], [XorCompression()]])))
        if as_dict:
            req = [(k.lower(), v) for k, v in req]
            h = dict(req)
            req = list(h.items())
            before = dict(h)
        else:
            h = Headers(req)
            before = list(h.allitems())
        get = kind == "unary" and proto == P.CONNECT and r.random() < .3
        out = await e.call(kind, [M(b"q")], headers=h if req or r.random() < .5 else None, **({"use_get": True} if get else {}))
        d = dict(mode=mode, proto=proto, kind=kind, req=req, rh=rh, rt=rt, fail=fail, get=get, out=out)
        o.check("the caller's headers are not modified", (h if as_dict else list(h.allitems())) == before, **d)
        o.check("the call reached the handler", len(svc.calls) == 1 and out.done != fail, **d)
        seen = per_name(svc.calls[0]["headers"], names)
        want = per_name(req)
        if mode == "sync":
            want = {k: [",".join(v)] for k, v in want.items()}
        o.eq("request headers reach the handler", seen, want, **d)
        o.eq("response headers reach the caller", per_name(out.headers, names), per_name(rh), **d)
        o.eq("response trailers reach the caller", per_name(out.trailers, names), per_name(rt), **d)
        o.check("trailers are not headers", not [k for k, v in out.headers if k.startswith("trailer-")], **d)


OWNED = {
    (P.CONNECT, "unary"): ["content-type", "connect-protocol-version", "content-encoding", "accept-encoding", "connect-timeout-ms"],
    (P.CONNECT, "bidi"): ["content-type", "connect-protocol-version", "connect-content-encoding", "connect-accept-encoding", "connect-timeout-ms"],
    (P.GRPC, "unary"): ["content-type", "te", "grpc-encoding", "grpc-accept-encoding", "grpc-timeout"],
    (P.GRPC_WEB, "bidi"): ["content-type", "te", "grpc-encoding", "grpc-accept-encoding", "grpc-timeout"],
}


@case("C07", bound="exhaustive: each owned header given by the caller once and twice, in two letter cases, with and without compression, as Headers and as a dict")
async def owned(o):
    for mode in MODES:
        for (proto, kind), names in OWNED.items():
            for comp in (None, XorCompression()):
                for get in ((False, True) if (proto, kind) == (P.CONNECT, "unary") else (False,)):
                    kw = dict(timeout_ms=90000, **({"use_get": True} if get else {}))
                    mk = lambda: E2E(mode, proto, Service(), server=dict(compressions=[XorCompression()]),
                                     client_kw=dict(send_compression=comp, accept_compression=[XorCompression()]))
                    e0 = mk()
                    await e0.call(kind, [M(b"q")], **kw)
                    base = sorted(kv for kv in e0.req.headers if "timeout" not in kv[0])
                    for name in names:
                        for form in (lambda n: {n: "evil"}, lambda n: Headers([(n, "evil")]), lambda n: Headers([(n, "evil"), (n.upper(), "evil2")]), lambda n: {n.upper(): "evil"}):
                            e = mk()
                            out = await e.call(kind, [M(b"q")], headers=form(name), **kw)
                            d = dict(mode=mode, proto=proto, kind=kind, name=name, comp=bool(comp), get=get, headers=e.req.headers, out=out)
                            o.check("owned headers carry the library's values, once", sorted(kv for kv in e.req.headers if "timeout" not in kv[0]) == base
                                    and not any("evil" in v for k, v in e.req.headers), **d)
                            o.check("the call is not disturbed", out.done, **d)


@case("C07", bound="exhaustive: handler trailers named like the status ones x success and failure with and without message and details")
async def status_trailers(o):
    for mode in MODES:
        for proto in (P.GRPC, P.GRPC_WEB, P.CONNECT):
            for kind in KINDS:
                for trs in ([("grpc-status", "0")], [("grpc-status", "5"), ("Grpc-Status", "6")], [("grpc-message", "evil")],
                            [("grpc-status-details-bin", "CAUSBGV2aWw")], [("GRPC-STATUS", "7"), ("grpc-message", "evil"), ("grpc-status-details-bin", "CAUSBGV2aWw")]):
                    for err in (None, ConnectError(Code.ABORTED, "mine"), ConnectError(Code.ABORTED, ""), ConnectError(Code.DATA_LOSS, "mine", details(("a.B", b"z")))):
                        def beh(q, c):
                            for k, v in trs:
                                c.response_trailers.add(k, v)
                            if err:
                                raise err
                            yield MO(b"m")
                        out = await E2E(mode, proto, Service(beh)).call(kind, [M(b"q")])
                        d = dict(mode=mode, proto=proto, kind=kind, trailers=trs, err=err, out=out)
                        if err is None:
                            o.check("trailers do not turn a success into a failure", out.done, **d)
                        else:
                            o.check("trailers do not replace the status", out.code == err.code and out.error.message == err.message and details_of(out.error) == details_of(err), **d)


@case("C07", bound="server headers: repeated request header lines in an ASGI scope; response header bytes")
async def asgi_raw(o):
    for i in o.times(200):
        r = o.rnd
        items = metadata(r, 7)
        svc = Service()
        res = await raw_asgi(asgi(svc), headers=[("Content-Type", "application/raw")] + items, chunks=[b"x"])
        o.check("repeated request headers keep all values in order", svc.calls and per_name(svc.calls[0]["headers"], {n.lower() for n in HN}) == per_name(items), items=items, res=res)
