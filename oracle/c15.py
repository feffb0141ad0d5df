"""C15: request bodies are read whole or the RPC fails."""
from oracle.core import case
from oracle.kit import *


def bodies(o):
    for n in (0, 1, 2, 5, 4095, 4096, 4097, 8192, 10000):
        yield bytes(o.rnd.randrange(256) for _ in range(min(n, 64))) * (n // 64) + bytes(n % 64) if n > 64 else bytes(o.rnd.randrange(256) for _ in range(n))


@case("C15", bound="bodies of 0-10000 bytes, random event splits with empty and missing bodies, content-length header right, wrong or absent")
async def asgi_whole(o):
    for _ in o.times(40, 400):
        for body in bodies(o):
            codec = RawCodec()
            svc = Service()
            cs = cut(body, o.rnd)
            evs = [{"type": "http.request", "body": c, "more_body": True} for c in cs]
            if o.rnd.random() < .5 and evs:
                evs[-1]["more_body"] = False
                if o.rnd.random() < .5:
                    del evs[-1]["more_body"]
            else:
                evs.append({"type": "http.request"} if o.rnd.random() < .5 else {"type": "http.request", "body": b"", "more_body": False})
            for e in evs:
                if e.get("body") == b"" and o.rnd.random() < .3:
                    del e["body"]
            extra = [{"type": "http.request", "body": b"EXTRA", "more_body": False}] if o.rnd.random() < .3 else []
            hs = [("content-type", "application/raw")] + ([("content-length", o.rnd.choice([str(len(body)), "0", "3", "99999999"]))] if o.rnd.random() < .4 else [])
            res = await raw_asgi(asgi(svc, codecs=[codec]), headers=hs, events=evs + extra)
            o.check("the message is the body", codec.decoded == [body] and len(svc.calls) == 1 and svc.calls[0]["reqs"][0].b == body and res.status == 200,
                    n=len(body), cuts=[len(c) for c in cs][:30], decoded=[len(x) for x in codec.decoded], res=res)


@case("C15", bound="disconnect or an unexpected event after every prefix of events; unary and single-request kinds of every protocol")
async def asgi_cut(o):
    for proto in PROTOS:
        for kind in ("unary", "server", "client"):
            body = b"hello world" if (proto, kind) == (P.CONNECT, "unary") else frame(b"hello world")
            for step in (1, 3, 7, 100):
                cs = [body[i:i + step] for i in range(0, len(body), step)]
                for k in range(len(cs) + 1):
                    for bad in ("http.disconnect", "http.nonsense"):
                        codec, svc = RawCodec(), Service()
                        evs = [{"type": "http.request", "body": c, "more_body": True} for c in cs[:k]] + [{"type": bad}]
                        res = await raw_asgi(asgi(svc, codecs=[codec]), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))], events=evs)
                        v = verdict(res, proto, kind)
                        d = dict(proto=proto, kind=kind, step=step, k=k, bad=bad, res=res)
                        if kind != "client":
                            o.check("no handler call for a body that was cut", not svc.calls, calls=svc.calls, **d)
                        else:
                            o.check("the handler sees the cut", svc.calls and svc.calls[0]["complete"] is False, calls=svc.calls, **d)
                        o.check("the RPC fails", v.ok is False, v=v, **d)
                        if bad == "http.disconnect" and v.code is not None:
                            o.check("as canceled", v.code == Code.CANCELED, v=v, **d)


@case("C15", bound="bodies of 0-10000 bytes, random short reads, with exact content length, less data than announced, more data than announced, none announced")
async def wsgi(o):
    from oracle.kit import wsgi as mk
    for _ in o.times(30, 300):
        for body in bodies(o):
            for how in ("exact", "short", "long", "none", "empty"):
                codec, svc = RawCodec(), Service()
                inp = WInput([c for c in cut(body, o.rnd, empties=False)])
                n = len(body)
                cl = {"exact": n, "short": n + o.rnd.choice([1, 2, 50, 100000]), "long": o.rnd.randrange(1, n) if n > 1 else None, "none": None, "empty": ""}[how]
                if how == "long" and cl is None or how == "exact" and n == 0:
                    continue
                extra = {"CONTENT_LENGTH": ""} if how == "empty" else None
                given = []
                orig = inp.read

                def read(k=-1):
                    given.append((k, inp.total))
                    return orig(k)
                inp.read = read
                res = raw_wsgi(mk(svc, codecs=[codec]), headers=[("content-type", "application/raw")], input=inp,
                               content_length=str(cl) if isinstance(cl, int) else None, extra=extra)
                d = dict(how=how, n=n, announced=cl, reads=given[:20], calls=len(svc.calls), res=res)
                if how == "short":
                    o.check("a truncated body fails the RPC", not svc.calls and not codec.decoded and res.status != 200, **d)
                    continue
                want = body[:cl] if how == "long" else body
                o.check("the message is the body", codec.decoded == [want] and len(svc.calls) == 1 and res.status == 200, **d)
                if isinstance(cl, int):
                    o.check("no more than the announced length is read", all(k is not None and 0 <= k <= cl - t for k, t in given) and inp.total <= cl, **d)


@case("C15", bound="compressed bodies (three algorithms) of 0-5000 bytes in random pieces, each mode")
async def compressed(o):
    for mode in MODES:
        for _ in o.times(30, 200):
            body = bytes(o.rnd.randrange(256) for _ in range(o.rnd.choice([1, 5, 300, 5000])))
            codec, svc = RawCodec(), Service()
            from connectrpc.compression.gzip import GzipCompression
            comp = o.rnd.choice([XorCompression(), GzipCompression()])
            wire = comp.compress(body)
            res = await raw(mode, app(mode, svc, codecs=[codec], compressions=[XorCompression(), GzipCompression()]),
                            headers=[("content-type", "application/raw"), ("content-encoding", comp.name())], chunks=cut(wire, o.rnd, empties=mode == "async"))
            o.check("the message is the decompressed body", codec.decoded == [body] and len(svc.calls) == 1, mode=mode, n=len(body), comp=comp.name(), res=res)
