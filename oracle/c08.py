"""C08: one well-formed HTTP response, executed."""
from oracle.core import case
from oracle.kit import *


class Weird(Exception):
    def __str__(self):
        return "weird \u00e9 \n"


@case("C08", bound="2500 random requests (valid and invalid method, path, content type, headers, bodies) x random handlers, interceptors and codecs")
async def fuzz(o):
    for i in o.times(2500):
        r = o.rnd
        mode = r.choice(MODES)
        proto, kind = r.choice(PROTOS), r.choice(KINDS)
        n = r.randrange(4)
        what = r.choice(["ok", "ok", "raise", "connect", "none"])
        early = r.random() < .3

        def beh(q, c):
            if r.random() < .3:
                c.response_headers.add("x-h", "1")
                c.response_headers.add("x-h", "2")
                c.response_trailers.add("x-t", "1")
            for j in range(n if kind in ("server", "bidi") or what in ("ok", "none") else 0):
                yield MO(blob(r))
            if what == "raise":
                raise r.choice([Weird, ValueError, KeyError, RuntimeError])("x")
            if what == "connect":
                raise ConnectError(r.choice(ALL_CODES), text(r), details(*rand_details(r)))
            if not n and kind in ("unary", "client"):
                yield MO(b"")

        codec = RawCodec()
        if r.random() < .15:
            k = r.randrange(3)
            cnt = [0]

            def bad(m):
                cnt[0] += 1
                return cnt[0] > k
            codec.fail_encode = bad
        if r.random() < .15:
            codec.fail_decode = lambda b: True
        ints = []
        if r.random() < .3:
            class I:
                async def on_start(self, ctx):
                    if r.random() < .2:
                        raise Weird("start")

                async def on_end(self, token, ctx, error):
                    if r.random() < .2:
                        raise Weird("end")

                def on_start_sync(self, ctx):
                    if r.random() < .2:
                        raise Weird("start")

                def on_end_sync(self, token, ctx, error):
                    if r.random() < .2:
                        raise Weird("end")
            ints = [I()]
        a = app(mode, Service(beh, early), codecs=[codec], compressions=r.choice([[], [XorCompression(), Grow()]]), interceptors=ints,
                read_max_bytes=r.choice([None, None, 3]))
        hs = []
        ct = r.choice([ctype(proto, kind)] * 8 + ["", "application/grpc", "application/zz", "text/plain", "application/grpc-web+zz", "APPLICATION/RAW"])
        if ct:
            hs.append(("content-type", ct))
        for k, vs in (("connect-protocol-version", ["1", "2", ""]), ("connect-timeout-ms", ["1000", "x", "99999999999", "-1"]), ("grpc-timeout", ["1S", "x", "1", "S"]),
                      ("content-encoding", ["xor", "zz", "identity", "XOR"]), ("connect-content-encoding", ["xor", "zz"]), ("grpc-encoding", ["xor", "zz"]),
                      ("accept-encoding", ["xor", "zz, xor", "*"]), ("connect-accept-encoding", ["xor", ",,"]), ("grpc-accept-encoding", ["xor", "zz"]), ("host", ["h", "[::1]:1", ":"])):
            if r.random() < .12:
                hs.append((k, r.choice(vs)))
        body = r.choice([frame(b"m")] * 4 + [frame(b"m") * 2, b"", frame(b"x", 1), frame(b"m")[:4], frame(b"m")[:-1], b"raw", frame(XorCompression().compress(b"m"), 1), b"\xff" * 7, frame(b"m" * 10, 3)])
        q = r.choice([b"", b"message=x&encoding=raw", b"encoding=raw&message=!&base64=1", b"%ff=%ff", b"message=x&encoding=raw&compression=xor", b"message=&encoding=raw"])
        meth = r.choice(["POST"] * 8 + ["GET", "GET", "PUT", "OPTIONS", "HEAD"])
        path = r.choice(["/p.S/" + NAMES[kind]] * 10 + ["/p.S/Nope", "/", ""])
        res = await raw(mode, a, method=meth, path=path, headers=hs, chunks=cut(body, r), query=q if mode == "async" else q.decode(),
                        trailers_ext=r.random() > .05, **({"server_protocol": r.choice([None, "HTTP/1.1"])} if mode == "sync" else {}))
        d = dict(mode=mode, method=meth, path=path, headers=hs, body=body, what=what, n=n, res=res)
        o.check("exactly one complete response", not res.wellformed(mode == "async"), problems=res.wellformed(mode == "async"), **d)
        if mode == "sync":
            o.check("the application does not raise", res.exc is None, **d)
        rct = res.header("content-type") or ""
        p2 = P.GRPC if rct.startswith("application/grpc+") else P.GRPC_WEB if rct.startswith("application/grpc-web+") else P.CONNECT if rct.startswith("application/connect+") else None
        if res.status == 200 and p2 is not None:
            v = verdict(res, p2, "bidi")
            o.check("exactly one terminator, after all messages", not v.problems and v.ok is not None, v=v, **d)
            if mode == "async":
                o.check("trailers are announced exactly for gRPC", bool(res.events[0][3]) == (p2 == P.GRPC), **d)
            o.check("trailers are sent exactly for gRPC", (len([e for e in res.events if e[0] == "trailers"]) == (1 if p2 == P.GRPC else 0)), **d)
        elif mode == "async":
            o.check("trailers are not announced otherwise", not res.events[0][3], **d)


@case("C08", bound="client disconnects at every request event and after 0-4 response events; async cancellation of streams at 0-20 loop steps")
async def aborts(o):
    for proto in PROTOS:
        for kind in KINDS:
            body = frame(b"one") if kind != "client" else frame(b"one") + frame(b"two")
            for cutat in range(0, len(body), 2):
                ev = [{"type": "http.request", "body": body[:cutat], "more_body": True}, {"type": "http.disconnect"}]
                res = await raw_asgi(asgi(Service()), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))], events=ev)
                o.check("a disconnected request is answered well-formed", not res.wellformed(), problems=res.wellformed(), proto=proto, kind=kind, cutat=cutat, res=res)
            for steps in range(0, 20):
                if (proto, kind) == (P.CONNECT, "unary"):
                    continue

                async def slow_fn(q, ctx):
                    for j in range(50):
                        await asyncio.sleep(0)

                svc = Service(lambda q, c: iter([MO(b"m")] * 30))

                class S(Service):
                    async def a_unary(self, r, ctx):
                        await slow_fn(r, ctx)
                        return MO(b"")

                    async def a_client(self, it, ctx):
                        await slow_fn(it, ctx)
                        return MO(b"")
                s = S(lambda q, c: iter([MO(b"m")] * 30))
                box = []

                async def go():
                    box.append(await raw_asgi(asgi(s), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))], chunks=[body]))
                t = asyncio.ensure_future(go())
                for _ in range(steps):
                    await asyncio.sleep(0)
                t.cancel()
                try:
                    await t
                except asyncio.CancelledError:
                    pass
                if box and box[0].events:
                    o.check("a cancelled stream is ended well-formed", not box[0].wellformed() and not verdict(box[0], proto, kind).problems, steps=steps, proto=proto, kind=kind, res=box[0])
    for proto in PROTOS:
        for kind in KINDS:
            for n in range(0, 5):
                res = raw_wsgi(wsgi(Service(lambda q, c: iter([MO(b"m")] * 6))), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))],
                               chunks=[frame(b"x")] if not (proto == P.CONNECT and kind == "unary") else [b"x"], stop_after=n + 1)
                o.check("a response that is no longer read is left quietly", len(res.starts) == 1 and res.exc is None, proto=proto, kind=kind, n=n, res=res)


@case("C08", bound="bodies of 0 to 12 chunks with every request the protocols define, responses of 0-40 messages")
async def counts(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in ("server", "bidi"):
                for n in (0, 1, 2, 3, 40):
                    for fail in (False, True):
                        for comp in (False, True):
                            def beh(q, c):
                                for j in range(n):
                                    yield MO(b"m%d" % j)
                                if fail:
                                    raise ConnectError(Code.ABORTED, "x")
                            h = [("content-type", ctype(proto, kind))]
                            if comp:
                                h.append(("connect-accept-encoding" if proto == P.CONNECT else "grpc-accept-encoding", "xor"))
                            res = await raw(mode, app(mode, Service(beh), compressions=[XorCompression()]), path="/p.S/" + NAMES[kind], headers=h, chunks=[frame(b"x")])
                            v = verdict(res, proto, kind)
                            o.check("all messages, then one terminator", not v.problems and len(v.msgs) == n and v.ok == (not fail) and not res.wellformed(mode == "async"),
                                    mode=mode, proto=proto, kind=kind, n=n, fail=fail, v=v, res=res)
