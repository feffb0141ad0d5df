"""C01: framing and chunking, executed."""
import itertools
from oracle.core import case
from oracle.kit import *


def encoded(m, comp):
    return comp.compress(m.b) if comp else m.b


@case("C01", bound="random message sequences (0-6 messages, up to 9000 bytes), 5 chunkings each, both modes, all protocols and stream kinds")
async def roundtrip(o):
    for i in o.times(260):
        mode, proto = o.rnd.choice(MODES), o.rnd.choice(PROTOS)
        kind = o.rnd.choice(["client", "server", "bidi", "bidi"] + (["unary"] if proto != P.CONNECT else []))
        comp = o.rnd.choice([None, XorCompression(), None])
        comps = [XorCompression()] if o.rnd.random() < .6 else []
        n = o.rnd.randrange(7)
        reqs = [M(blob(o.rnd)) for _ in range(n if kind in ("client", "bidi") else 1)]
        if o.rnd.random() < .1 and reqs:
            reqs[0] = M(bytes(o.rnd.randrange(256) for _ in range(50)) * 180)
        resps = [MO(blob(o.rnd)) for _ in range(o.rnd.randrange(7) if kind in ("server", "bidi") else 1)]
        svc = Service(lambda r, c: iter(resps))
        e = E2E(mode, proto, svc, server=dict(compressions=[XorCompression()]),
                client_kw=dict(send_compression=comp, accept_compression=comps),
                chunk=lambda b: cut(b, o.rnd), rchunk=lambda b: cut(b, o.rnd))
        out = await e.call(kind, reqs)
        d = dict(mode=mode, proto=proto, kind=kind, comp=bool(comp), accept=bool(comps), reqs=reqs, resps=resps)
        o.check("the handler receives exactly the messages sent", len(svc.calls) == 1 and svc.calls[0]["reqs"] == reqs, out=out, **d)
        o.check("the client receives exactly the messages sent", out.done and out.msgs == resps, out=out, **d)
        # wire
        o.eq("the request body is the frames of the messages", e.req.body,
             b"".join(frame(encoded(m, comp), 1 if comp else 0) for m in reqs), **d)
        fs, rest = frames(e.res.body)
        acc = comps
        want = [(1 if acc else 0, encoded(m, XorCompression() if acc else None)) for m in resps]
        endbit = {P.CONNECT: 2, P.GRPC_WEB: 128}.get(proto)
        o.check("the response body is whole frames", rest == b"", body=e.res.body, **d)
        o.eq("the response frames are the messages", [f for f in fs if not endbit or not f[0] & endbit], want, **d)


@case("C01", bound="exhaustive single split points and pairs of split points of bodies of up to 3 frames")
async def split_points(o):
    msgs = [b"", b"abc", b"\x00\x00\x00\x00\x01"]
    body = b"".join(frame(m) for m in msgs)
    for mode in MODES:
        for i in range(len(body) + 1):
            for j in range(i, len(body) + 1):
                for kind in ("bidi",):
                    svc = Service(lambda r, c: iter([]))
                    r = await raw(mode, app(mode, svc), path="/p.S/Bidi", headers=[("content-type", "application/connect+raw")],
                                  chunks=[body[:i], body[i:j], body[j:]])
                    o.check("every split delivers the same messages to the handler",
                            svc.calls and [m.b for m in svc.calls[0]["reqs"]] == msgs, mode=mode, i=i, j=j, res=r)
        rbody = b"".join(frame(m) for m in msgs)
        for proto, end, ct, trl in (
            (P.CONNECT, frame(b"{}", 2), "application/connect+raw", []),
            (P.GRPC, b"", "application/grpc+raw", [("grpc-status", "0")]),
            (P.GRPC_WEB, frame(b"grpc-status: 0\r\n", 128), "application/grpc-web+raw", []),
        ):
            b = rbody + end
            for i in range(len(b) + 1):
                for j in {i, min(i + 1, len(b)), min(i + 6, len(b)), len(b)}:
                    cl, _ = fake(mode, raw_answer(200, [("content-type", ct)], b, trl), proto,
                                 rchunk=lambda x: [x[:i], b"", x[i:j], x[j:]])
                    out = await call(mode, cl, "server", [M(b"q")])
                    o.check("every split delivers the same messages to the caller",
                            out.done and [m.b for m in out.msgs] == msgs, mode=mode, proto=proto, i=i, j=j, out=out)


@case("C01", bound="frames after the end-of-stream frame in every split of a body of 4 frames")
async def after_end(o):
    for mode in MODES:
        for proto, end, ct in ((P.CONNECT, frame(b"{}", 2), "application/connect+raw"),
                               (P.GRPC_WEB, frame(b"grpc-status: 0\r\n", 128), "application/grpc-web+raw")):
            for tail in (frame(b"late"), frame(b"late") + end, frame(b""), end, b"\x00", frame(b"x" * 5000)):
                b = frame(b"one") + end + tail
                for i in range(0, min(len(b), 60)):
                    cl, _ = fake(mode, raw_answer(200, [("content-type", ct)], b), proto, rchunk=lambda x: [x[:i], x[i:i + 7], x[i + 7:]])
                    out = await call(mode, cl, "server", [M(b"q")])
                    o.check("nothing after the end is delivered", [m.b for m in out.msgs] == [b"one"], mode=mode, proto=proto, i=i,
                            tail=tail[:20], out=out)


@case("C01", bound="payload lengths around byte boundaries of the length prefix (0..2^24+1)")
async def lengths(o):
    from connectrpc._envelope import EnvelopeReader
    from connectrpc._compression import IdentityCompression
    from connectrpc._protocol_connect import ConnectEnvelopeWriter
    from connectrpc._protocol_grpc import GRPCEnvelopeWriter, GRPCWebEnvelopeWriter
    for n in (0, 1, 4, 5, 127, 128, 255, 256, 257, 65535, 65536, 65537, 2**24 - 1, 2**24, 2**24 + 1):
        for W in (ConnectEnvelopeWriter, GRPCEnvelopeWriter, GRPCWebEnvelopeWriter):
            p = bytes(n)
            w = W(RawCodec(), None).write(M(p))
            o.check("prefix", w[:5] == struct.pack(">BI", 0, n) and w[5:] == p, n=n, w=w[:8])
            r = EnvelopeReader(M, RawCodec(), IdentityCompression(), None)
            got = list(itertools.islice((m for c in (w[:3], w[3:9], w[9:]) for m in r.feed(c)), 3))
            o.check("round trip", got == [M(p)], n=n)
            if n > 70000:
                break
