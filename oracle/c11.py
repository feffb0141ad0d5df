"""C11: only valid requests reach a handler, exhaustive over the gates."""
from oracle.core import case
from oracle.kit import *


class Spy:
    """Counts interceptor invocations."""

    def __init__(self):
        self.n = 0

    async def on_start(self, ctx):
        self.n += 1

    async def on_end(self, t, ctx, e):
        pass

    def on_start_sync(self, ctx):
        self.n += 1

    def on_end_sync(self, t, ctx, e):
        pass


def body_for(proto, kind):
    return b"q" if (proto, kind) == (P.CONNECT, "unary") else frame(b"q")


async def go(mode, *, level=None, **kw):
    svc, spy = Service(lambda q, c: iter([MO(b"r")])), Spy()
    old = LEVEL.get("unary")
    try:
        if level is not None:
            LEVEL["unary"] = level
        a = app(mode, svc, interceptors=[spy], compressions=[XorCompression()], **kw.pop("app_kw", {}))
        res = await raw(mode, a, **kw)
    finally:
        LEVEL["unary"] = old
    return svc, spy, res


@case("C11", bound="exhaustive: 14 methods x 4 kinds x 3 idempotency levels x protocols x modes")
async def methods(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for level in IdempotencyLevel if kind == "unary" else [IdempotencyLevel.NO_SIDE_EFFECTS]:
                    old = dict(LEVEL)
                    LEVEL.update({k: level for k in KINDS})
                    try:
                        for m in ("POST", "GET", "HEAD", "PUT", "PATCH", "DELETE", "OPTIONS", "CONNECT", "TRACE", "get", "post", "QUERY", "", "G ET"):
                            q = b"encoding=raw&message=q"
                            for ct in ([("content-type", ctype(proto, kind))], []):
                                svc, spy, res = await go(mode, method=m, path="/p.S/" + NAMES[kind], query=q if mode == "async" else q.decode(), headers=ct, chunks=[body_for(proto, kind)], level=level)
                                p2 = proto if ct else P.CONNECT
                                d = dict(mode=mode, proto=p2, kind=kind, level=level, m=m, ct=ct, res=res, calls=svc.calls)
                                get_ok = p2 == P.CONNECT and kind == "unary" and level == IdempotencyLevel.NO_SIDE_EFFECTS
                                if m == "POST" and ct:
                                    o.check("POST reaches the handler", len(svc.calls) == 1 and svc.calls[0]["kind"] == kind and verdict(res, p2, kind).ok, **d)
                                elif m == "GET" and get_ok:
                                    o.check("GET reaches the handler of a unary method free of side effects", len(svc.calls) == 1 and res.status == 200, **d)
                                elif m == "POST":
                                    o.check("no content type: not handled", not svc.calls and spy.n == 0 and res.status == 415, **d)
                                else:
                                    allow = (res.header("allow") or "").replace(" ", "").split(",")
                                    o.check("405", res.status == 405 and not svc.calls and spy.n == 0, **d)
                                    o.eq("allow lists the accepted methods", sorted(allow), ["GET", "POST"] if get_ok else ["POST"], **d)
                    finally:
                        LEVEL.clear()
                        LEVEL.update(old)


@case("C11", bound="exhaustive: 30 paths x mount prefixes x modes")
async def paths(o):
    good = {"/p.S/" + n: k for k, n in NAMES.items()}
    pool = list(good) + ["/", "", "/p.S", "/p.S/", "/p.S/unary", "/P.S/Unary", "p.S/Unary", "//p.S/Unary", "/p.S/Unary/", "/p.S/Unary2", "/p.S/Unar", "/x/p.S/Unary", "/p.S/p.S/Unary",
                         "/p.S/Unary/Unary", "/q.S/Unary", "/Unary", "/p.S/Unary ", "/p.S%2FUnary", "/p.S/Unary\x00", "/é"]
    for proto in (P.CONNECT, P.GRPC):
        for path in pool:
            for root in ("", "/api", "/p.S", "/"):
                for full in (path, root + path):
                    # ASGI: path includes the root path
                    kind = good.get(full) or (good.get(full.removeprefix(root)) if root else None)
                    k = kind or "unary"
                    svc, spy, res = await go("async", path=full, root_path=root, headers=[("content-type", ctype(proto, k))], chunks=[body_for(proto, k)])
                    d = dict(path=full, root=root, kind=kind, res=res, calls=svc.calls)
                    if kind:
                        o.check("the handler the path names", [c["kind"] for c in svc.calls] == [kind], **d)
                    else:
                        o.check("404", res.status == 404 and not svc.calls and spy.n == 0, **d)
            for script in ("", "/p.S", "/api", "/api/p.S"):
                kind = good.get(path) or (good.get("/p.S" + path) if script == "/p.S" else None)
                k = kind or "unary"
                svc, spy, res = await go("sync", path=path, script_name=script, headers=[("content-type", ctype(proto, k))], chunks=[body_for(proto, k)])
                d = dict(path=path, script=script, kind=kind, res=res, calls=svc.calls)
                if kind:
                    o.check("the handler the path names", [c["kind"] for c in svc.calls] == [kind], **d)
                else:
                    o.check("404", res.status == 404 and not svc.calls and spy.n == 0, **d)


def expected_ct(ct, kind):
    """(protocol, codec name) a content type means, or None"""
    low = ct.split(";")[0].strip().lower()
    if ct == "application/grpc":
        return P.GRPC, "proto"
    if ct.startswith("application/grpc+"):
        return P.GRPC, ct[len("application/grpc+"):]
    if ct == "application/grpc-web":
        return P.GRPC_WEB, "proto"
    if ct.startswith("application/grpc-web+"):
        return P.GRPC_WEB, ct[len("application/grpc-web+"):]
    pre = "application/" if kind == "unary" else "application/connect+"
    return P.CONNECT, (low[len(pre):] if low.startswith(pre) else low)


@case("C11", bound="45 content types x 4 kinds x 3 codec sets x modes; the bare codec-name quirk of malformed types is left out")
async def content_types(o):
    cts = []
    for c in ("raw", "proto", "json", "zz", "", "RAW", "raw2", "ra"):
        cts += [f"application/{c}", f"application/connect+{c}", f"application/grpc+{c}", f"application/grpc-web+{c}"]
    cts += ["application/raw; charset=utf-8", "application/connect+raw;x=y", "APPLICATION/RAW", "Application/Connect+Raw ; a", "application/grpc", "application/grpc-web",
            "text/raw", "text/plain", "multipart/form-data; boundary=x", "", "application/x-raw", "application/connect", "application/grpc-web-text+raw"]
    for mode in MODES:
        for names in (("raw",), ("proto", "json"), ("raw", "proto")):
            for kind in KINDS:
                for ct in cts:
                    proto, cn = expected_ct(ct, kind)
                    ok = cn in names
                    svc, spy, res = await go(mode, path="/p.S/" + NAMES[kind], headers=[("content-type", ct)], chunks=[body_for(proto, kind)], app_kw=dict(codecs=[RawCodec(n) for n in names]))
                    d = dict(mode=mode, names=names, kind=kind, ct=ct, proto=proto, cn=cn, res=res, calls=svc.calls)
                    if ok:
                        o.check("a configured codec is accepted", len(svc.calls) == 1 and verdict(res, proto, kind).ok, **d)
                    else:
                        o.check("415 for other content types", res.status == 415 and not svc.calls and spy.n == 0, **d)
            for enc in ("raw", "proto", "json", "zz", "", None, "RAW"):
                q = "message=q" + ("" if enc is None else f"&encoding={enc}")
                svc, spy, res = await go(mode, method="GET", query=q.encode() if mode == "async" else q, app_kw=dict(codecs=[RawCodec(n) for n in names]))
                if enc in names:
                    o.check("GET with a configured encoding", len(svc.calls) == 1, enc=enc, mode=mode, names=names, res=res)
                else:
                    o.check("GET with another encoding is rejected", not svc.calls and spy.n == 0 and res.status >= 400, enc=enc, mode=mode, names=names, res=res)


@case("C11", bound="protocol versions and timeouts (25 each) x Connect kinds x POST/GET x modes")
async def connect_headers(o):
    versions = ["1", "2", "0", "01", "1.0", " 1", "v1", "", "one", "-1", "11"]
    timeouts = [("1", 1), ("0", 0), ("9999999999", 1), ("99999999999", 0), ("10000000000", 0), ("12345678901", 0), ("x", 0), ("1s", 0), ("1.5", 0), ("1e3", 0), ("0x10", 0), ("1 000", 0),
                ("100m", 0), ("NaN", 0), ("inf", 0), ("1,2", 0), ("--1", 0), ("00000000001", 0), ("5000", 1), ("0000000007", 1)]
    for mode in MODES:
        for kind in KINDS:
            for get in (False, True) if kind == "unary" else (False,):
                for v in versions:
                    hs = [("connect-protocol-version", v)] + ([] if get else [("content-type", ctype(P.CONNECT, kind))])
                    svc, spy, res = await go(mode, method="GET" if get else "POST", path="/p.S/" + NAMES[kind], query=(b"encoding=raw&message=q" if mode == "async" else "encoding=raw&message=q") if get else (b"" if mode == "async" else ""),
                                             headers=hs, chunks=[b""] if get else [body_for(P.CONNECT, kind)])
                    d = dict(mode=mode, kind=kind, get=get, version=v, res=res)
                    if v == "1":
                        o.check("version 1 is accepted", len(svc.calls) == 1, **d)
                    else:
                        o.check("another version is invalid_argument", not svc.calls and spy.n == 0 and res.status == 400 and (res.error_json() or {}).get("code") == "invalid_argument", **d)
                for t, ok in timeouts:
                    hs = [("connect-timeout-ms", t)] + ([] if get else [("content-type", ctype(P.CONNECT, kind))])
                    svc, spy, res = await go(mode, method="GET" if get else "POST", path="/p.S/" + NAMES[kind], query=(b"encoding=raw&message=q" if mode == "async" else "encoding=raw&message=q") if get else (b"" if mode == "async" else ""),
                                             headers=hs, chunks=[b""] if get else [body_for(P.CONNECT, kind)])
                    d = dict(mode=mode, kind=kind, get=get, timeout=t, res=res)
                    if ok:
                        o.check("a timeout of at most 10 digits is accepted", len(svc.calls) == 1, **d)
                    elif t != "0":
                        o.check("an invalid timeout is invalid_argument", not svc.calls and spy.n == 0 and res.status == 400 and (res.error_json() or {}).get("code") == "invalid_argument", **d)


@case("C11", bound="prefixes and near-misses of two services' worth of endpoints")
async def many(o):
    for mode in MODES:
        hit = []

        def mk(name):
            if mode == "async":
                async def f(r, ctx):
                    hit.append(name)
                    return MO(b"")
                return Endpoint.unary(method=method("unary", name=name), function=f)

            def f(r, ctx):
                hit.append(name)
                return MO(b"")
            return EndpointSync.unary(method=method("unary", name=name), function=f)
        eps = {f"/p.S/{n}": mk(n) for n in ("A", "AB", "ABC", "a", "B")}
        if mode == "async":
            a = AApp(service=None, endpoints=lambda s: eps, codecs=[RawCodec()])
        else:
            a = SApp(endpoints=eps, codecs=[RawCodec()])
        for n in ("A", "AB", "ABC", "a", "B"):
            for m in ("POST", "GET"):
                hit.clear()
                await raw(mode, a, method=m, path=f"/p.S/{n}", headers=[("content-type", "application/raw")], chunks=[b"x"], query=b"encoding=raw&message=q" if mode == "async" else "encoding=raw&message=q")
                o.check("exactly the named method", hit == [n], mode=mode, n=n, hit=hit)
