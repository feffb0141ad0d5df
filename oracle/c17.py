"""C17: GET is equivalent to POST."""
from urllib.parse import parse_qsl, urlsplit
import base64

from oracle.core import case
from oracle.kit import *
from connectrpc.compression.gzip import GzipCompression


def b64(m):
    return base64.urlsafe_b64encode(m).decode()


@case("C17", bound="random messages up to 600 bytes, compressions {none, gzip, xor}, codec names with reserved characters, random metadata, each mode")
async def equivalent(o):
    for mode in MODES:
        for _ in o.times(120, 1200):
            msg = M(blob(o.rnd, 600))
            name = o.rnd.choice(["raw", "json", "x&y=1", "a+b", "ü", "a b", "%41", "p/q"])
            comp = o.rnd.choice([None, GzipCompression(), XorCompression()])
            hs = [(o.rnd.choice(["x-a", "x-b", "X-C", "authorization"]), o.rnd.choice(["1", "two words", "a,b", "=&%"])) for _ in range(o.rnd.randrange(4))]
            fail = o.rnd.random() < .2
            seen = {}
            for get in (True, False):
                def beh(q, c):
                    c.response_headers.add("r-h", "1")
                    c.response_trailers.add("r-t", "2")
                    if fail:
                        raise ConnectError(Code.ABORTED, "boom")
                    yield MO(b"re:" + q[0].b)
                e = E2E(mode, P.CONNECT, Service(beh), server=dict(codecs=[RawCodec(name)], compressions=[GzipCompression(), XorCompression()]),
                        client_kw=dict(codec=RawCodec(name), send_compression=comp, accept_compression=[GzipCompression(), XorCompression()]))
                out = await e.call("unary", [msg], headers=Headers(hs) if hs else None, use_get=get)
                c = e.svc.calls[0] if e.svc.calls else None
                seen[get] = (out.msgs, out.code, getattr(out.error, "message", None), [x for x in out.headers if x[0] == "r-h"], out.trailers, c and c["reqs"],
                             c and sorted(x for x in c["headers"] if x[0] not in ("content-type", "content-encoding", "content-length", "host")))
                d = dict(mode=mode, msg=msg, name=name, comp=comp and comp.name(), hs=hs, out=out)
                o.check("one handler call with the request", len(e.svc.calls) == 1 and c["reqs"] == [msg], calls=e.svc.calls, **d)
                if get:
                    r = e.req
                    q = dict(parse_qsl(urlsplit(r.url).query, keep_blank_values=True, strict_parsing=True))
                    o.check("sent as GET without body or content type", r.method == "GET" and r.body == b"" and not r.header("content-type") and not r.header("content-encoding"), req=r, **d)
                    o.check("the query names codec and compression", q.get("encoding") == name and q.get("connect") == "v1" and q.get("base64") == "1"
                            and q.get("compression", "identity") == (comp.name() if comp else "identity"), q=q, **d)
                    raw_ = base64.urlsafe_b64decode(q["message"] + "===") if "message" in q else None
                    raw_ = comp.decompress(raw_) if comp and raw_ else raw_
                    o.check("the query carries the message", raw_ == msg.b and set(q["message"]) <= set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_="), q=q, **d)
                    o.check("the handler sees GET", c["http_method"] == "GET", **d)
            o.check("GET and POST agree", seen[True] == seen[False], get=seen[True], post=seen[False], mode=mode, msg=msg, name=name)


@case("C17", bound="queries with base64 padded or not, plain text messages, parameter orders, each mode: same message as the POST body")
async def server(o):
    for mode in MODES:
        for _ in o.times(200, 1500):
            m = blob(o.rnd, 60)
            style = o.rnd.choice(["b64", "b64nopad", "text"])
            if style == "text":
                m = o.rnd.choice(["", "plain", "a b", "ü&=%", "+", "{}"]).encode()
            comp = o.rnd.choice([None, "xor", "identity"]) if style != "text" else None
            wire = XorCompression().compress(m) if comp == "xor" else m
            from urllib.parse import urlencode
            ps = [("connect", "v1"), ("encoding", "raw"), ("message", wire.decode() if style == "text" else b64(wire).rstrip("=") if style == "b64nopad" else b64(wire))]
            if style != "text":
                ps.append(("base64", "1"))
            elif o.rnd.random() < .3:
                ps.append(("base64", "0"))
            if comp:
                ps.append(("compression", comp))
            o.rnd.shuffle(ps)
            q = urlencode(ps)
            svc = Service()
            res = await raw(mode, app(mode, svc, compressions=[XorCompression()]), method="GET", query=q.encode() if mode == "async" else q, headers=[], content_length=None) if mode == "sync" else \
                await raw(mode, app(mode, svc, compressions=[XorCompression()]), method="GET", query=q.encode(), headers=[])
            o.check("the handler gets the message", res.status == 200 and len(svc.calls) == 1 and svc.calls[0]["reqs"][0].b == m, mode=mode, q=q, m=m, res=res)


@case("C17", bound="invalid queries: no message, bad base64, unknown compression or encoding, undecompressable; each mode")
async def invalid(o):
    for mode in MODES:
        for q, codes in [("encoding=raw", {"invalid_argument"}), ("message=AA&encoding=raw&base64=1&compression=zip", {"unimplemented"}),
                         ("message=A&encoding=raw&base64=1&compression=xor", None), ("message=%ff%fe&encoding=raw&base64=1&compression=xor", None), ("message=AAAA&encoding=raw&base64=1&compression=xor", None),
                         ("message=AA&encoding=nope&base64=1", None), ("message=AA&base64=1", None)]:
            svc = Service()
            codec = RawCodec()
            res = await raw(mode, app(mode, svc, compressions=[XorCompression()], codecs=[codec]), method="GET", query=q.encode() if mode == "async" else q, headers=[],
                            **({"content_length": None} if mode == "sync" else {}))
            j = res.error_json() or {}
            o.check("rejected without a handler call", res.status is not None and res.status >= 400 and not svc.calls and (codes is None or j.get("code") in codes), mode=mode, q=q, res=res)
