"""C10: unary cardinality, executed."""
from oracle.core import case
from oracle.kit import *


@case("C10", bound="exhaustive: 0-4 request messages (also empty ones) x protocols x single-request kinds x modes x chunkings x compression")
async def requests(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in ("unary", "server"):
                if (proto, kind) == (P.CONNECT, "unary"):
                    continue
                for n in range(0, 5):
                    for payload in (b"", b"q", b"long" * 50):
                        for comp in (False, True):
                            for style in range(3):
                                ms = [XorCompression().compress(payload) if comp else payload] * n
                                body = b"".join(frame(m, int(comp)) for m in ms)
                                chunks = [body] if style == 0 else [frame(m, int(comp)) for m in ms] + [b""] if style == 1 else [body[i:i + 3] for i in range(0, len(body), 3)]
                                svc = Service(lambda q, c: iter([MO(b"r")]))
                                h = [("content-type", ctype(proto, kind))] + ([("connect-content-encoding" if proto == P.CONNECT else "grpc-encoding", "xor")] if comp else [])
                                res = await raw(mode, app(mode, svc, compressions=[XorCompression()]), path="/p.S/" + NAMES[kind], headers=h, chunks=chunks or [b""])
                                v = verdict(res, proto, kind)
                                d = dict(mode=mode, proto=proto, kind=kind, n=n, payload=payload[:9], style=style, comp=comp, v=v, calls=svc.calls)
                                if n == 1:
                                    o.check("exactly one message: the handler is called once with it", v.ok and len(svc.calls) == 1 and svc.calls[0]["reqs"] == [M(payload)], **d)
                                else:
                                    o.check("otherwise it is not called and the RPC is unimplemented", not svc.calls and v.ok is False and v.code == Code.UNIMPLEMENTED, **d)


@case("C10", bound="exhaustive: 0-3 response messages (also empty ones) x success / 3 errors / no terminator x protocols x single-response kinds x modes")
async def responses(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in ("unary", "client"):
                if (proto, kind) == (P.CONNECT, "unary"):
                    continue
                for n in range(0, 4):
                    for payload in (b"", b"r"):
                        for err in (None, Code.ABORTED, Code.UNIMPLEMENTED, Code.INTERNAL, "cut"):
                            body, tr = frame(payload) * n, []
                            if err == "cut":
                                pass
                            elif proto == P.CONNECT:
                                body += frame(json.dumps({"error": {"code": err.value, "message": "own"}} if err else {}).encode(), 2)
                            else:
                                s = str(GRPC_NUM[err]) if err else "0"
                                if proto == P.GRPC:
                                    tr = [("grpc-status", s), ("grpc-message", "own")]
                                else:
                                    body += frame(f"grpc-status: {s}\r\ngrpc-message: own\r\n".encode(), 128)
                            for one in (True, False):
                                cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(proto, kind))], body, tr), proto,
                                             rchunk=(lambda x: [x] if x else []) if one else (lambda x: [x[i:i + 2] for i in range(0, len(x), 2)]))
                                out = await call(mode, cl, kind, [M(b"q")])
                                d = dict(mode=mode, proto=proto, kind=kind, n=n, payload=payload, err=err, out=out)
                                if n >= 2:
                                    o.check("several messages: unimplemented", out.code == Code.UNIMPLEMENTED and not out.msgs, **d)
                                elif err == "cut":
                                    o.check("no terminator: an error", isinstance(out.error, ConnectError), **d)
                                elif err:
                                    o.check("the response's own error", out.code == err and out.error.message == "own", **d)
                                elif n == 0:
                                    o.check("no message: unimplemented", out.code == Code.UNIMPLEMENTED, **d)
                                else:
                                    o.check("exactly one message and success: returned", out.done and out.msgs == [MO(payload)], **d)


@case("C10", bound="end to end: handlers of single-response kinds, empty messages")
async def end_to_end(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for b in (b"", b"x"):
                    svc = Service(lambda q, c: iter([MO(b)]))
                    out = await E2E(mode, proto, svc).call(kind, [M(b)])
                    o.check("one message each way", out.done and out.msgs == [MO(b)] and len(svc.calls) == 1 and svc.calls[0]["reqs"] == [M(b)], mode=mode, proto=proto, kind=kind, out=out)
