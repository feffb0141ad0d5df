"""C02: the read limit, executed."""
import base64
from urllib.parse import urlencode

from oracle.core import case
from oracle.kit import *

LIMITS = [0, 1, 2, 5, 16, 100, 1000, 65536]


def size_around(rnd, limit):
    if limit is None:
        return rnd.choice([0, 1, 10, 1000, 70000])
    return max(0, limit + rnd.choice([-2, -1, 0, 0, 0, 1, 1, 2, 50, -limit]))


def body_of(rnd, n):
    return bytes(rnd.randrange(256) for _ in range(min(n, 64))) + b"q" * (n - min(n, 64))


@case("C02", bound="random limits (0..65536 and none), message sizes around them, every protocol and kind, plain/xor/expanding compression")
async def server(o):
    for i in o.times(500):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        limit = r.choice(LIMITS + [None])
        comp = r.choice([None, XorCompression()])
        n = r.randrange(0, 5) if kind in ("client", "bidi") else 1
        reqs = [M(body_of(r, size_around(r, limit))) for _ in range(n)]
        if limit is not None and kind in ("client", "bidi"):
            for m in reqs[:-1]:
                if r.random() < .7:
                    m.b = m.b[:limit]
        get = kind == "unary" and proto == P.CONNECT and r.random() < .5
        codec = RawCodec()
        svc = Service(lambda q, c: iter([MO(b"")]))
        e = E2E(mode, proto, svc, server=dict(read_max_bytes=limit, compressions=[XorCompression()], codecs=[codec]),
                client_kw=dict(send_compression=comp, accept_compression=[]), chunk=lambda b: cut(b, r))
        out = await e.call(kind, reqs, **({"use_get": True} if get else {}))
        big = [m for m in reqs if limit is not None and len(m.b) > limit]
        d = dict(mode=mode, proto=proto, kind=kind, get=get, limit=limit, comp=bool(comp), sizes=[len(m.b) for m in reqs])
        o.check("nothing over the limit is decoded or delivered to a handler",
                limit is None or (all(len(x) <= limit for x in codec.decoded)
                                  and all(len(m.b) <= limit for c in svc.calls for m in c["reqs"])), out=out, **d)
        if big:
            o.eq("a message over the limit fails the RPC with resource_exhausted", out.code, Code.RESOURCE_EXHAUSTED, out=out, **d)
        else:
            o.check("a message within the limit is not rejected", out.done and svc.calls[0]["reqs"] == reqs, out=out, **d)


@case("C02", bound="bodies that expand from up to 6 bytes to up to 200000, limits around the size, chunked framing with several frames")
async def expanding(o):
    for i in o.times(300):
        r = o.rnd
        mode = r.choice(MODES)
        limit = r.choice(LIMITS)
        n = max(0, limit + r.choice([0, 1, -1, 3, 100000]))
        wire = str(n).encode()
        codec, svc = RawCodec(), Service()
        a = app(mode, svc, read_max_bytes=limit, compressions=[Grow()], codecs=[codec])
        how = r.choice(["post", "get", "connect", "grpc", "grpcweb"])
        if how == "post":
            res = await raw(mode, a, headers=[("content-type", "application/raw"), ("content-encoding", "grow")], chunks=cut(wire, r))
            v = verdict(res, P.CONNECT, "unary")
        elif how == "get":
            b64 = r.random() < .5
            q = {"encoding": "raw", "compression": "grow", "connect": "v1"}
            q.update({"base64": "1", "message": base64.urlsafe_b64encode(wire).decode().rstrip("=")} if b64 else {"message": wire.decode()})
            qs = urlencode(q)
            res = await raw(mode, a, method="GET", query=qs.encode() if mode == "async" else qs)
            v = verdict(res, P.CONNECT, "unary")
        else:
            proto = {"connect": P.CONNECT, "grpc": P.GRPC, "grpcweb": P.GRPC_WEB}[how]
            h = "connect-content-encoding" if proto == P.CONNECT else "grpc-encoding"
            res = await raw(mode, a, path="/p.S/Client", headers=[("content-type", ctype(proto, "client")), (h, "grow")],
                            chunks=cut(frame(wire, 1), r))
            v = verdict(res, proto, "client")
        d = dict(mode=mode, how=how, limit=limit, n=n, res=res)
        o.check("nothing over the limit after decompression is decoded", all(len(x) <= limit for x in codec.decoded), **d)
        o.check("the size after decompression decides", (v.code == Code.RESOURCE_EXHAUSTED) == (n > limit) and v.ok == (n <= limit), v=v, **d)


@case("C02", bound="random limits, response sizes around them, every protocol and kind, compressed and not")
async def caller(o):
    for i in o.times(500):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        unary_connect = kind == "unary" and proto == P.CONNECT
        limit = r.choice([0, 1, 5, 100, 1000, None] if unary_connect else [100, 1000, 65536, None])
        n = r.randrange(0, 5) if kind in ("server", "bidi") else 1
        resps = [MO(body_of(r, size_around(r, limit))) for _ in range(n)]
        codec = RawCodec()
        e = E2E(mode, proto, Service(lambda q, c: iter(resps)), server=dict(compressions=[XorCompression()]),
                client_kw=dict(read_max_bytes=limit, accept_compression=r.choice([[], [XorCompression()]]), codec=codec),
                rchunk=lambda b: cut(b, r))
        out = await e.call(kind, [M(b"")])
        d = dict(mode=mode, proto=proto, kind=kind, limit=limit, sizes=[len(m.b) for m in resps], out=out)
        k = next((i for i, m in enumerate(resps) if limit is not None and len(m.b) > limit), None)
        o.check("nothing over the limit is decoded", limit is None or all(len(x) <= limit for x in codec.decoded), **d)
        if k is None:
            o.check("responses within the limit are delivered", out.done and out.msgs == resps, **d)
        else:
            o.eq("a response over the limit fails with resource_exhausted", out.code, Code.RESOURCE_EXHAUSTED, **d)
            o.check("the responses before it are delivered", out.msgs == (resps[:k] if kind in ("server", "bidi") else []), **d)


@case("C02", bound="expanding responses, limits around the size")
async def caller_expanding(o):
    for i in o.times(120):
        r = o.rnd
        mode, proto = r.choice(MODES), r.choice(PROTOS)
        limit = r.choice([100, 1000])
        n = limit + r.choice([0, 1, -1, 50000])
        h, end = ("connect-content-encoding", frame(b"{}", 2)) if proto == P.CONNECT else ("grpc-encoding", b"" if proto == P.GRPC else frame(b"grpc-status: 0\r\n", 128))
        codec = RawCodec()
        cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, "server")), (h, "grow")], frame(str(n).encode(), 1) + end,
                                      [("grpc-status", "0")] if proto == P.GRPC else []), proto,
                     accept_compression=[Grow()], read_max_bytes=limit, codec=codec, rchunk=lambda b: cut(b, r))
        out = await call(mode, cl, "server", [M(b"")])
        d = dict(mode=mode, proto=proto, limit=limit, n=n, out=out)
        o.check("nothing over the limit is decoded", all(len(x) <= limit for x in codec.decoded), **d)
        o.check("the size after decompression decides", (out.code == Code.RESOURCE_EXHAUSTED) == (n > limit) and out.done == (n <= limit), **d)
