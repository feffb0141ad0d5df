"""C16: response content types."""
from oracle.core import case
from oracle.kit import *

WEIRD = ["", "text/html", "text/plain; charset=utf-8", "application", "application/", "application/json", "application/proto", "application/raw", "application/raw2", "application/xraw",
         "Application/Raw", "application/raw; charset=utf-8", "application/raw ;a=b", " application/raw ", "application/raw;", "application/connect+raw", "application/connect+json", "application/connect+",
         "application/connect+raw; charset=utf-8", "Application/Connect+Raw", "application/connect", "application/grpc", "application/grpc+raw", "application/grpc+proto", "application/grpc+json",
         "application/grpc+", "application/grpc-web", "application/grpc-web+raw", "application/grpc-web+proto", "application/grpc-web-text", "application/grpc-web+raw+x", "application/grpcx",
         "application/grpc+raw; charset=utf-8", "APPLICATION/GRPC+RAW", "xapplication/raw", "xapplication/grpc+raw", "application/connect+rawx", "application/rawx", "application/ra"]


def expect(proto, stream, ct, codec):
    """None if it matches, else the code.  Parameters and case are only ignored for Connect unary."""
    if proto == P.CONNECT and not stream:
        n = ct.split(";")[0].strip().lower()
        if not n.startswith("application/"):
            return Code.UNKNOWN
        return None if n == "application/" + codec else Code.INTERNAL
    pre = {P.CONNECT: "application/connect", P.GRPC: "application/grpc", P.GRPC_WEB: "application/grpc-web"}[proto]
    if ct == pre and proto != P.CONNECT:
        return None if codec == "proto" else Code.INTERNAL
    if not ct.startswith(pre + "+"):
        return Code.UNKNOWN
    return None if ct[len(pre) + 1:] == codec else Code.INTERNAL


def ok_body(proto, kind):
    if proto == P.CONNECT and kind == "unary":
        return b"m", []
    b = frame(b"m")
    return {P.CONNECT: (b + frame(b"{}", 2), []), P.GRPC: (b, [("grpc-status", "0")]), P.GRPC_WEB: (b + frame(b"grpc-status: 0\r\n", 128), [])}[proto]


@case("C16", bound="40 content types and mutations x codecs raw, proto, json x protocols, kinds, modes")
async def success(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for name in ("raw", "proto", "json"):
                    own = ctype(proto, kind)[:-3] + name
                    cts = WEIRD + [own, own.upper(), own + "x", own[:-1], own + "; a=b", own.replace("+", "-"), own + " "]
                    for ct in cts:
                        codec = RawCodec(name)
                        b, t = ok_body(proto, kind)
                        cl, _ = fake(mode, raw_answer(200, [("content-type", ct)] if ct else [], b, t), proto, codec=codec)
                        out = await call(mode, cl, kind, [M(b"q")])
                        e = expect(proto, not (proto == P.CONNECT and kind == "unary"), ct, name)
                        d = dict(mode=mode, proto=proto, kind=kind, codec=name, ct=ct, want=e, out=out)
                        o.check("accepted exactly if it matches", out.done == (e is None) and (e is None or out.code == e), **d)
                        o.check("nothing is decoded otherwise", e is None and codec.decoded == [b"m"] or e is not None and codec.decoded == [], decoded=codec.decoded, **d)


@case("C16", bound="all statuses 100-599 but 200 (sampled) x bodies describing an error, not JSON, not an error, a valid message x content types, protocols, kinds, modes")
async def status(o):
    sts = [s for s in list(CODE_OF_HTTP) + [201, 202, 204, 206, 299, 300, 301, 302, 304, 400, 402, 405, 408, 409, 410, 412, 415, 418, 422, 431, 499, 500, 501, 505, 511, 599]]
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for st in sts if o.tier != "quick" else o.rnd.sample(sts, 12):
                    unary = (proto, kind) == (P.CONNECT, "unary")
                    okb, okt = ok_body(proto, kind)
                    default = CODE_OF_HTTP.get(st, Code.UNKNOWN)
                    cases = [(b'{"code": "aborted", "message": "mm"}', "application/json", Code.ABORTED), (b'{"message": "mm"}', "application/json", default),
                             (b"{}", "application/json", default), (b"[]", "application/json", default), (b"null", "application/json", default), (b"not json", "text/plain", default),
                             (b"", "", default), (b"not json {", "application/json", default), (okb, ctype(proto, kind), default), (b'"m"', "application/json", default),
                             (b'{"code": "aborted"}', "application/json; charset=utf-8", Code.ABORTED), (b"<html>\xff", "text/html", default)]
                    for body, ct, want in cases:
                        if okb == body and ct == ctype(proto, kind) and proto == P.GRPC:
                            pass
                        codec = RawCodec()
                        cl, _ = fake(mode, raw_answer(st, [("content-type", ct)] if ct else [], body, okt), proto, codec=codec)
                        out = await call(mode, cl, kind, [M(b"q")])
                        d = dict(mode=mode, proto=proto, kind=kind, status=st, body=body, ct=ct, want=want, out=out)
                        o.check("the status is an error with the right code", not out.done and out.code == want and not out.msgs, **d)
                        o.check("nothing is decoded", codec.decoded == [], decoded=codec.decoded, **d)
