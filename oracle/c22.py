"""C22: calls do not influence one another."""
from oracle.core import case
from oracle.kit import *
from connectrpc.compression.gzip import GzipCompression


def freeze(x, depth=0, seen=None):
    """A comparable picture of configuration reachable from x."""
    seen = seen if seen is not None else set()
    if id(x) in seen or depth > 6:
        return "..."
    if isinstance(x, dict):
        return ("dict", [(repr(k), freeze(v, depth + 1, seen)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1, seen) for v in x])
    if isinstance(x, (str, int, bytes, float, type(None), bool)):
        return x
    if type(x).__module__.startswith("connectrpc"):
        seen.add(id(x))
        d = getattr(x, "__dict__", None) or {s: getattr(x, s, None) for s in getattr(type(x), "__slots__", ())}
        return (type(x).__name__, [(k, freeze(v, depth + 1, seen)) for k, v in sorted(d.items())])
    return (type(x).__name__, id(x))


def probe_of(o):
    """A request with its raw parameters."""
    proto, kind = o.rnd.choice(PROTOS), o.rnd.choice(KINDS)
    un = (proto, kind) == (P.CONNECT, "unary")
    body = o.rnd.choice([b"hello", b"", b"boom", b"err:x", b"many"])
    p = dict(path="/p.S/" + NAMES[kind], chunks=[body if un else frame(body)])
    hs = [("content-type", ctype(proto, kind)), ("x-k", o.rnd.choice("abc"))]
    r = o.rnd.random()
    if r < .1:
        hs[0] = ("content-type", o.rnd.choice(["text/html", "application/nope", "application/connect+zzz", "application/grpc+zzz"]))
    elif r < .2:
        p["path"] = o.rnd.choice(["/nope", "/p.S/unary", "/p.S"])
    elif r < .3:
        hs.append((o.rnd.choice(["connect-timeout-ms", "grpc-timeout"]), o.rnd.choice(["100000", "10S", "zz"])))
    elif r < .4:
        p["chunks"] = [frame(body)[:3]] if not un else p["chunks"]
    elif r < .5:
        p["method"] = o.rnd.choice(["PUT", "GET"])
    elif r < .7:
        hs.append(({P.CONNECT: "accept-encoding" if un else "connect-accept-encoding"}.get(proto, "grpc-accept-encoding"), o.rnd.choice(["gzip", "xor", "br, xor", "zip", "identity"])))
    elif r < .8:
        hs.append(({P.CONNECT: "content-encoding" if un else "connect-content-encoding"}.get(proto, "grpc-encoding"), o.rnd.choice(["zip", "identity", "br"])))
    p["headers"] = hs
    return p


def beh(q, c):
    b = b"|".join(m.b for m in q)
    c.response_headers.add("r-h", "h-" + b.decode())
    c.response_trailers.add("r-t", "t-" + b.decode())
    c.response_headers.add("seen", ",".join(v for k, v in c.request_headers.allitems() if k == "x-k"))
    yield MO(b"1:" + b)
    if b == b"boom":
        raise ValueError("boom")
    if b == b"err:x":
        raise ConnectError(Code.ABORTED, "x")
    yield MO(b"2:" + b)


def view(r):
    return (r.status, r.headers, r.body, r.trailers, repr(r.exc), r.problems)


@case("C22", bound="random histories of 0-12 requests (valid, invalid, failing, cut; all protocols and kinds) before a probe, compared with the probe on a fresh application")
async def server(o):
    for mode in MODES:
        for _ in o.times(60, 600):
            mk = lambda: app(mode, Service(beh), codecs=[RawCodec()], compressions=[XorCompression(), GzipCompression()], interceptors=ints, read_max_bytes=o2)
            o2 = o.rnd.choice([None, 100])
            ints = []
            if o.rnd.random() < .5:
                class I:
                    async def on_start(self, ctx):
                        ctx.response_headers.add("i", "1")

                    async def on_end(self, t, ctx, e):
                        ctx.response_trailers.add("j", "1")

                    def on_start_sync(self, ctx):
                        ctx.response_headers.add("i", "1")

                    def on_end_sync(self, t, ctx, e):
                        ctx.response_trailers.add("j", "1")
                ints = [I()]
            a = mk()
            probe = probe_of(o)
            first = view(await raw(mode, mk(), **probe))
            await raw(mode, a, path="/nope")
            conf = freeze(a.__dict__)
            hist = [probe_of(o) for _ in range(o.rnd.randrange(0, 13))]
            for h in hist:
                await raw(mode, a, **h)
            got = view(await raw(mode, a, **probe))
            d = dict(mode=mode, probe=probe, hist=hist, got=got, first=first)
            o.check("the same request gets the same treatment", strip(got) == strip(first), **d)
            o.check("the configuration stays as constructed", freeze(a.__dict__) == conf, before=conf, after=freeze(a.__dict__), **d)


def strip(v):
    import re
    return re.sub(r"0x[0-9a-f]+", "", repr(v))


@case("C22", bound="random histories of 0-10 client calls with random peers (success, errors, resets, cut bodies, other encodings) before a probe call, compared with a fresh client; concurrent calls")
async def client_side(o):
    from oracle import kit
    for mode in MODES:
        for proto in PROTOS:
            for _ in o.times(40, 300):
                def answers():
                    kind = o.rnd.choice(KINDS)
                    un = (proto, kind) == (P.CONNECT, "unary")
                    good = (b"m" if un else frame(b"m") + (frame(b'{"metadata": {"t": ["1"]}}', 2) if proto == P.CONNECT else frame(b"grpc-status: 0\r\nt: 1\r\n", 128) if proto == P.GRPC_WEB else b""))
                    tr = [("grpc-status", "0"), ("t", "1")] if proto == P.GRPC else []
                    st, ct, exc = 200, ctype(proto, kind), None
                    r = o.rnd.random()
                    if r < .15:
                        good = good[:o.rnd.randrange(len(good))]
                    elif r < .3:
                        st = o.rnd.choice([404, 500, 503])
                    elif r < .4:
                        ct = "text/html"
                    elif r < .5:
                        exc = OSError("x")
                    hs = [("content-type", ct), ("h", o.rnd.choice("123"))]
                    if o.rnd.random() < .2:
                        hs.append(({P.CONNECT: "content-encoding" if un else "connect-content-encoding"}.get(proto, "grpc-encoding"), o.rnd.choice(["identity", "zzz"])))
                    return kind, (st, hs, good, tr, exc), [M(o.rnd.choice([b"a", b"", b"bb"]))], o.rnd.choice([None, {"x": "1"}, Headers([("a", "1"), ("a", "2"), ("content-type", "zz")])]), o.rnd.choice([None, 100000])
                cur = {}
                shared = {"x": "1"}

                async def run(cl, a, http):
                    kind, ans, reqs, hs, t = a
                    http.answer = lambda c: ans
                    before = (list(hs.allitems()) if isinstance(hs, Headers) else dict(hs)) if hs is not None else None
                    out = await call(mode, cl, kind, reqs, headers=hs, timeout_ms=t)
                    after = (list(hs.allitems()) if isinstance(hs, Headers) else dict(hs)) if hs is not None else None
                    o.check("the caller's headers are not modified", before == after, mode=mode, proto=proto, kind=kind, before=before, after=after)
                    r = http.requests[-1]
                    return (out.msgs, out.code, getattr(out.error, "message", None), out.headers, out.trailers, r.method, r.url, [x for x in r.headers if "timeout" not in x[0]], r.body)
                kw = dict(send_compression=o.rnd.choice([None, GzipCompression(), XorCompression()]), accept_compression=[XorCompression()])
                cl, http = fake(mode, None, proto, **kw)
                conf = freeze({k: v for k, v in cl.__dict__.items()})
                probe = answers()
                hist = [answers() for _ in range(o.rnd.randrange(0, 11))]
                for a in hist:
                    await run(cl, a, http)
                got = await run(cl, probe, http)
                cl2, http2 = fake(mode, None, proto, **kw)
                want = await run(cl2, probe, http2)
                o.check("the same call gets the same outcome", repr(got) == repr(want), mode=mode, proto=proto, probe=probe, hist=hist, got=got, want=want)
                o.check("the client's configuration stays as constructed", freeze(cl.__dict__) == conf, mode=mode, proto=proto, before=conf, after=freeze(cl.__dict__))


@case("C22", bound="caller-supplied codecs, compressions, endpoints, interceptors in lists and dicts; defaults shared by several applications and clients")
async def supplied(o):
    import connectrpc._compression as cm
    import connectrpc._codec as cc
    for mode in MODES:
        for _ in o.times(10, 50):
            comps, codecs, ints = [XorCompression()], [RawCodec(), RawCodec("other")], []
            before = (list(comps), list(codecs), list(ints), freeze(dict(cm._default_compressions)) if hasattr(cm, "_default_compressions") else None, list(cc.get_default_codecs()))
            apps = [app(mode, Service(beh), codecs=codecs, compressions=comps, interceptors=ints), app(mode, Service(beh), codecs=None), app(mode, Service(beh), codecs=[RawCodec()], compressions=[]),
                    app(mode, Service(beh), codecs=[RawCodec("x")])]
            clients = [fake(mode, raw_answer(), P.CONNECT, accept_compression=comps)[0], fake(mode, raw_answer(), P.CONNECT, accept_compression=None)[0], fake(mode, raw_answer(), P.CONNECT, accept_compression=[])[0]]
            for a in apps:
                for _ in range(3):
                    await raw(mode, a, **probe_of(o))
            for c in clients:
                await call(mode, c, "unary", [M(b"x")])
            after = (list(comps), list(codecs), list(ints), freeze(dict(cm._default_compressions)) if hasattr(cm, "_default_compressions") else None, list(cc.get_default_codecs()))
            o.check("caller-supplied and default collections are not modified", before == after, mode=mode, before=before, after=after)
            r = await raw(mode, apps[2], headers=[("content-type", "application/raw"), ("accept-encoding", "gzip, xor")], chunks=[b"x"])
            o.check("an application without compressions does not compress", r.body == b"1:x", mode=mode, res=r)
            r = await raw(mode, apps[3], headers=[("content-type", "application/raw")], chunks=[b"x"])
            o.check("codecs are those of the application", r.status == 415, mode=mode, res=r)


@case("C22", bound="2-6 concurrent calls of one async application and client, random interleavings")
async def concurrent(o):
    for proto in PROTOS:
        for _ in o.times(15, 150):
            n = o.rnd.randrange(2, 7)

            class S(Service):
                async def a_unary(self, r, ctx):
                    for _ in range(r.b[0] % 7):
                        await asyncio.sleep(0)
                    ctx.response_headers.add("r-h", r.b.decode())
                    await asyncio.sleep(0)
                    ctx.response_trailers.add("r-t", r.b.decode())
                    if r.b[0] % 5 == 0:
                        raise ConnectError(Code.ABORTED, r.b.decode())
                    return MO(r.b + b"!")

                async def a_bidi(self, it, ctx):
                    ctx.response_headers.add("r-h", "")
                    async for m in it:
                        for _ in range(m.b[0] % 5):
                            await asyncio.sleep(0)
                        ctx.response_trailers.add("r-t", m.b.decode())
                        yield MO(m.b + b"!")
            e = E2E("async", proto, S())
            words = [bytes(o.rnd.choice(b"abcdefghijk") for _ in range(3)) for _ in range(n)]
            kinds = [o.rnd.choice(["unary", "bidi"]) for _ in range(n)]
            outs = await asyncio.gather(*[e.call(k, [M(w)]) for w, k in zip(words, kinds)])
            for w, k, out in zip(words, kinds, outs):
                fail = k == "unary" and w[0] % 5 == 0
                d = dict(proto=proto, w=w, k=k, out=out, words=words)
                o.check("each call gets its own outcome", (out.code == Code.ABORTED and out.error.message == w.decode()) if fail else (out.done and out.msgs == [MO(w + b"!")]), **d)
                o.check("and its own trailers", [v for a, v in out.trailers if a == "r-t"] == [w.decode()], **d)
                o.check("and headers", [v for a, v in out.headers if a == "r-h"] == [w.decode() if k == "unary" else ""], **d)
