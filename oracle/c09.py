"""C09: success only for RPCs that succeeded, executed."""
from oracle.core import case
from oracle.kit import *


class Boom(Exception):
    pass


@case("C09", bound="0-5 messages x {handler raises at k, codec fails at k, interceptor raises, response of a wrong kind} x protocols, kinds, modes")
async def server(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for n in range(0, 4):
                    if kind in ("unary", "client") and n != 1:
                        continue
                    for k in [None] + list(range(n + 1)):
                        for how in ("raise", "connect", "codec", "interceptor", "end"):
                            codec = RawCodec()
                            bad = k is not None

                            def beh(q, c):
                                for j in range(n):
                                    if bad and k == j and how in ("raise", "connect"):
                                        raise Boom("x") if how == "raise" else ConnectError(Code.ABORTED, "x")
                                    yield MO(b"m%d" % j)
                                if bad and k == n and how in ("raise", "connect") and kind in ("server", "bidi"):
                                    raise Boom("x") if how == "raise" else ConnectError(Code.ABORTED, "x")
                            fails = bad and not (k == n and how in ("raise", "connect") and kind in ("unary", "client"))
                            if how == "codec":
                                codec.fail_encode = lambda m: bad and m.b == b"m%d" % k
                                fails = bad and k < n
                            ints = []
                            if how in ("interceptor", "end"):
                                if k != n:
                                    continue
                                fails = True

                                class I:
                                    async def on_start(self, ctx):
                                        if how == "interceptor":
                                            raise Boom("i")

                                    def on_start_sync(self, ctx):
                                        if how == "interceptor":
                                            raise Boom("i")

                                    async def on_end(self, t, ctx, e):
                                        if how == "end":
                                            raise Boom("e")

                                    def on_end_sync(self, t, ctx, e):
                                        if how == "end":
                                            raise Boom("e")
                                ints = [I()]
                            res = await raw(mode, app(mode, Service(beh), codecs=[codec], interceptors=ints), path="/p.S/" + NAMES[kind],
                                            headers=[("content-type", ctype(proto, kind))], chunks=[frame(b"x") if (proto, kind) != (P.CONNECT, "unary") else b"x"])
                            v = verdict(res, proto, kind)
                            o.check("success exactly if the handler completed and all messages were sent", v.ok is (not fails) and (v.ok is False or len(v.msgs) == n), mode=mode,
                                    proto=proto, kind=kind, n=n, k=k, how=how, v=v, res=res)


@case("C09", bound="async: cancellation of the request task after 0-30 loop steps; a client disconnect noticed after 0-3 messages (server streaming)")
async def cancelled(o):
    for proto in PROTOS:
        for kind in KINDS:
            if (proto, kind) == (P.CONNECT, "unary"):
                continue
            for steps in range(0, 31):
                fin = []

                class S(Service):
                    async def a_unary(self, r, ctx):
                        for _ in range(20):
                            await asyncio.sleep(0)
                        fin.append(1)
                        return MO(b"m")

                    async def a_client(self, it, ctx):
                        async for _ in it:
                            pass
                        for _ in range(20):
                            await asyncio.sleep(0)
                        fin.append(1)
                        return MO(b"m")

                def beh(q, c):
                    for _ in range(12):
                        yield MO(b"m")
                    fin.append(1)
                box = []
                s = S(beh)

                async def go():
                    box.append(await raw_asgi(asgi(s), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))], chunks=[frame(b"x")]))
                t = asyncio.ensure_future(go())
                for _ in range(steps):
                    await asyncio.sleep(0)
                was_done = t.done()
                t.cancel()
                try:
                    await t
                except asyncio.CancelledError:
                    pass
                if box and box[0].events:
                    v = verdict(box[0], proto, kind)
                    d = dict(proto=proto, kind=kind, steps=steps, v=v, res=box[0])
                    if not fin:
                        o.check("an RPC whose handler was cancelled is not ended with success", v.ok is not True, **d)
                    if was_done:
                        o.check("an RPC that completed is a success", v.ok is True, **d)
        for k in range(0, 4):
            gone = asyncio.Event()
            seen = []

            class S2(Service):
                async def a_server(self, r, ctx):
                    try:
                        for j in range(50):
                            yield MO(b"m")
                            await asyncio.sleep(0)
                        seen.append("finished")
                    finally:
                        seen.append("closed")

            async def rx():
                await gone.wait()
                return {"type": "http.disconnect"}

            def on_send(m, n):
                if n >= k + 1:
                    gone.set()
            res = await raw_asgi(asgi(S2()), path="/p.S/Server", headers=[("content-type", ctype(proto, "server"))],
                                 events=[{"type": "http.request", "body": frame(b"x"), "more_body": False}, rx], on_send=on_send)
            v = verdict(res, proto, "server")
            o.check("a stream whose client disconnected is not a success", v.ok is False and "finished" not in seen and seen[-1:] == ["closed"], proto=proto, k=k, v=v, seen=seen)


@case("C09", bound="every truncation point of responses with 0-3 messages, each protocol, mode, kind and two chunkings; with and without trailers")
async def client_cut(o):
    for mode in MODES:
        for proto in PROTOS:
            for n in range(0, 4):
                body = b"".join(frame(b"message %d" % i) for i in range(n))
                bounds = {sum(14 for _ in range(i)) for i in range(n + 1)}
                full = body + (frame(b'{"metadata": {"a": ["b"]}}', 2) if proto == P.CONNECT else frame(b"grpc-status: 0\r\n", 128) if proto == P.GRPC_WEB else b"")
                for cutat in range(len(full) + 1):
                    for trl in ([("grpc-status", "0")], []) if proto == P.GRPC else ([],):
                        for kind in ("server", "bidi"):
                            b = full[:cutat]
                            cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, kind))], b, trl), proto, rchunk=lambda x: [x[:5], x[5:]] if kind == "server" else ([x] if x else []))
                            out = await call(mode, cl, kind, [M(b"q")])
                            d = dict(mode=mode, proto=proto, kind=kind, n=n, cutat=cutat, of=len(full), trl=trl, out=out)
                            if proto == P.GRPC:
                                good = bool(trl) and cutat in bounds
                            else:
                                good = cutat == len(full)
                            o.check("complete exactly if the terminator arrived and no message is cut", out.done == good, **d)
                            o.check("only whole messages are delivered", len(out.msgs) <= n and all(m.b == b"message %d" % i for i, m in enumerate(out.msgs)), **d)


@case("C09", bound="every truncation point of request streams of 0-3 messages, by end of body and by disconnect, each protocol, mode, chunking")
async def request_cut(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in ("client", "bidi", "server", "unary"):
                if (proto, kind) == (P.CONNECT, "unary"):
                    continue
                for n in ((0, 1, 2, 3) if kind in ("client", "bidi") else (1,)):
                    body = b"".join(frame(b"message %d" % i) for i in range(n))
                    for cutat in range(len(body) + 1):
                        for how in ("eof", "disconnect") if mode == "async" else ("eof",):
                            b = body[:cutat]
                            svc = Service(lambda q, c: iter([MO(b"r")]))
                            if how == "disconnect":
                                res = await raw_asgi(asgi(svc), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))],
                                                     events=[{"type": "http.request", "body": b, "more_body": True}, {"type": "http.disconnect"}])
                            else:
                                res = await raw(mode, app(mode, svc), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))], chunks=[b[:3], b[3:]])
                            v = verdict(res, proto, kind)
                            whole = cutat % 14 == 0 and how == "eof"
                            d = dict(mode=mode, proto=proto, kind=kind, n=n, cutat=cutat, how=how, v=v)
                            if kind in ("client", "bidi"):
                                o.check("a cut request stream is never presented as complete", len(svc.calls) == 1 and svc.calls[0]["complete"] == whole, calls=svc.calls, **d)
                                o.check("and the RPC fails", v.ok == whole, **d)
                            else:
                                o.check("a cut request does not reach the handler", (len(svc.calls) == 1) == (whole and cutat == 14), **d)
                                o.check("the RPC fails", v.ok == (whole and cutat == 14), **d)


@case("C09", bound="error terminators of all codes after 0-2 messages are never success")
async def client_errors(o):
    for mode in MODES:
        for proto in PROTOS:
            for n in range(3):
                for code in ALL_CODES:
                    body, tr = frame(b"m") * n, []
                    if proto == P.CONNECT:
                        body += frame(json.dumps({"error": {"code": code.value}}).encode(), 2)
                    elif proto == P.GRPC_WEB:
                        body += frame(f"grpc-status: {GRPC_NUM[code]}\r\n".encode(), 128)
                    else:
                        tr = [("grpc-status", str(GRPC_NUM[code]))]
                    for kind in KINDS:
                        if (proto, kind) == (P.CONNECT, "unary"):
                            continue
                        cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, kind))], body, tr), proto)
                        out = await call(mode, cl, kind, [M(b"q")])
                        o.check("an error terminator is an error", not out.done and (out.code == code or (n > 1 and out.code == Code.UNIMPLEMENTED and kind in ("unary", "client"))),
                                mode=mode, proto=proto, n=n, kind=kind, code=code, out=out)


@case("C09", bound="0-3 messages and no terminator: frames with other flags that look like one, gRPC statuses in response headers, success statuses in the wrong place; each mode and chunking")
async def not_a_terminator(o):
    ends = [b"{}", b'{"metadata": {}}', b"grpc-status: 0\r\n", b""]
    for mode in MODES:
        for proto in PROTOS:
            for kind in ("server", "bidi"):
                for n in range(4):
                    body = b"".join(frame(b"message %d" % i) for i in range(n))
                    mine = {P.CONNECT: 2, P.GRPC_WEB: 128}.get(proto, 0)
                    for flag in (0, 4, 8, 16, 32, 64, 128, 2, 6, 130, 252):
                        if flag & mine:
                            continue
                        for e in ends:
                            for tr in ([], [("x-status", "0")], [("grpc-message", "")]):
                                cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, kind))], body + frame(e, flag), tr), proto,
                                             rchunk=lambda x: [x[:7], x[7:]] if kind == "bidi" else [x])
                                out = await call(mode, cl, kind, [M(b"q")])
                                o.check("a frame that is not the protocol's terminator does not complete an RPC", not out.done, mode=mode, proto=proto, kind=kind, n=n, flag=flag, payload=e, trailers=tr, out=out)
                    for h in ([("grpc-status", "0")], [("grpc-status", "0"), ("grpc-message", "")]):
                        cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, kind))] + h, body, []), proto)
                        out = await call(mode, cl, kind, [M(b"q")])
                        o.check("a status in the headers ends only a gRPC response without messages", out.done == (n == 0 and proto == P.GRPC) or (n == 0 and proto == P.GRPC_WEB), mode=mode, proto=proto, kind=kind, n=n, out=out)
                    if proto != P.GRPC:
                        cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, kind))], body, [("grpc-status", "0")]), proto)
                        out = await call(mode, cl, kind, [M(b"q")])
                        o.check("HTTP trailers are not a terminator", not out.done, mode=mode, proto=proto, kind=kind, n=n, out=out)
