"""C12: compression, executed."""
import base64
from urllib.parse import parse_qs, urlsplit

from oracle.core import case
from oracle.kit import *

A, B, C3 = XorCompression("xa"), XorCompression("xb"), XorCompression("xc")
BY = {"xa": A, "xb": B, "xc": C3}
WELL = ["gzip", "br", "zstd", "deflate", "snappy"]  # names peers may assume
BY.update({n: XorCompression(n) for n in WELL})


def undo(name, data):
    return BY[name].decompress(data) if name in BY else data


def enc_header(proto, kind):
    return "content-encoding" if (proto, kind) == (P.CONNECT, "unary") else "connect-content-encoding" if proto == P.CONNECT else "grpc-encoding"


def acc_header(proto, kind):
    return "accept-encoding" if (proto, kind) == (P.CONNECT, "unary") else "connect-accept-encoding" if proto == P.CONNECT else "grpc-accept-encoding"


@case("C12", bound="random accept lists (0-4 entries of 6 names, odd spacing) x supported sets in random order x protocols x kinds x modes")
async def negotiate(o):
    for i in o.times(900):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        sup = r.sample(["xa", "xb", "xc"] + WELL, r.choice([0, 1, 2, 3, 8]))
        acc = [r.choice(["xa", "xb", "xc", "zz", "identity", "gzip", "", *WELL]) for _ in range(r.randrange(5))]
        text_ = r.choice([",", ", ", " , "]).join(acc)
        given = r.random() < .85
        fail = r.random() < .2
        resp = [MO(blob(r)) for _ in range(r.randrange(1, 4) if kind in ("server", "bidi") else 1)]

        def beh(q, c):
            yield from resp if kind in ("server", "bidi") or not fail else ()
            if fail:
                raise ConnectError(Code.ABORTED, "m")
        a = app(mode, Service(beh), compressions=[BY[s] for s in sup])
        hs = [("content-type", ctype(proto, kind))] + ([(acc_header(proto, kind), text_)] if given else [])
        res = await raw(mode, a, path="/p.S/" + NAMES[kind], headers=hs, chunks=[frame(b"q") if (proto, kind) != (P.CONNECT, "unary") else b"q"])
        want = next((x for x in acc if x in sup or x == "identity"), "identity") if given else "identity"
        d = dict(mode=mode, proto=proto, kind=kind, supported=sup, accept=text_ if given else None, want=want, fail=fail, res=res)
        if (proto, kind) == (P.CONNECT, "unary"):
            if fail:
                o.check("an error body is plain JSON", (res.error_json() or {}).get("code") == "aborted" and res.header("content-encoding") in (None, "identity"), **d)
                continue
            o.eq("the encoding is announced", res.header("content-encoding") or "identity", want, **d)
            o.eq("and used", res.body, BY[want].compress(resp[0].b) if want in BY else resp[0].b, **d)
            continue
        o.eq("the encoding is announced, once", res.allh(enc_header(proto, kind)) or ["identity"], [want], **d)
        fs, rest = frames(res.body)
        bits = {f & 1 for f, _ in fs}
        o.check("flags say what is compressed", rest == b"" and bits <= ({1} if want in BY else {0}), **d)
        end = {P.CONNECT: 2, P.GRPC_WEB: 128}.get(proto, 0)
        got = [undo(want, p) for f, p in fs if not f & end]
        o.eq("messages are compressed with it", got, [m.b for m in resp] if kind in ("server", "bidi") else ([] if fail else [resp[0].b]), **d)


@case("C12", bound="random announced encodings x flags per message x supported sets x protocols x kinds, empty and non-empty messages")
async def receive_server(o):
    for i in o.times(900):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        sup = r.sample(["xa", "xb"], r.randrange(3))
        name = r.choice(["xa", "xb", "zz", "identity", None])
        codec = RawCodec()
        svc = Service(lambda q, c: iter([MO(b"r")]))
        a = app(mode, svc, compressions=[BY[s] for s in sup], codecs=[codec])
        hs = [("content-type", ctype(proto, kind))] + ([(enc_header(proto, kind), name)] if name else [])
        d = dict(mode=mode, proto=proto, kind=kind, supported=sup, name=name)
        if (proto, kind) == (P.CONNECT, "unary"):
            plain = r.choice([b"", b"hello", b"Xxa"])
            get = r.random() < .4
            data = BY[name].compress(plain) if name in BY and plain else plain
            if get:
                q = f"encoding=raw&base64=1&message={base64.urlsafe_b64encode(data).decode()}" + (f"&compression={name}" if name else "")
                res = await raw(mode, a, method="GET", query=q.encode() if mode == "async" else q)
            else:
                res = await raw(mode, a, headers=hs, chunks=cut(data, r))
            v = verdict(res, proto, kind)
            ok = name in sup or name in (None, "identity")
            d.update(get=get, plain=plain, res=res, calls=svc.calls)
            o.check("a supported encoding is undone, another is an error", (v.ok and svc.calls[0]["reqs"] == [M(plain)]) if ok else (v.ok is False and not svc.calls and not codec.decoded), **d)
            continue
        n = r.randrange(1, 4) if kind in ("client", "bidi") else 1
        ms = [(r.choice([b"", b"hello", b"\x00"]), r.random() < .5) for _ in range(n)]
        body = b"".join(frame(BY.get(name, A).compress(p), 1) if c else frame(p) for p, c in ms)
        res = await raw(mode, a, path="/p.S/" + NAMES[kind], headers=hs, chunks=cut(body, r))
        v = verdict(res, proto, kind)
        known = name in sup
        bad = [k for k, (p, c) in enumerate(ms) if c] if not known else []
        refused = proto != P.CONNECT and name not in (None, "identity") and not known
        d.update(ms=ms, v=v, calls=svc.calls, decoded=codec.decoded)
        if refused:
            o.check("an unsupported algorithm is an RPC error", v.ok is False and not codec.decoded and not svc.calls, **d)
        elif bad:
            o.check("a compressed message without a usable algorithm is an RPC error", v.ok is False, **d)
            o.check("and never garbage passed to the codec", codec.decoded == [p for p, c in ms[:bad[0]]], **d)
        else:
            o.check("exactly the marked messages are decompressed", v.ok is True and svc.calls[0]["reqs"] == [M(p) for p, c in ms], **d)


@case("C12", bound="random announced encodings x flags x accepted sets of responses")
async def receive_client(o):
    for i in o.times(700):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(["server", "bidi"])
        acc = r.sample(["xa", "xb"], r.randrange(3))
        name = r.choice(["xa", "xb", "zz", "identity", None, ""])
        ms = [(r.choice([b"", b"hello", b"\x00"]), r.random() < .5) for _ in range(r.randrange(1, 4))]
        body = b"".join(frame(BY.get(name, A).compress(p), 1) if c else frame(p) for p, c in ms)
        cend = r.random() < .5 and name in BY
        end = {P.CONNECT: (b"{}", 2), P.GRPC_WEB: (b"grpc-status: 0\r\n", 128)}.get(proto)
        if end:
            body += frame(BY[name].compress(end[0]), end[1] | 1) if cend else frame(*end)
        codec = RawCodec()
        hs = [("content-type", ctype(proto, kind))] + ([(enc_header(proto, kind), name)] if name is not None else [])
        cl, _ = fake(mode, raw_answer(200, hs, body, [("grpc-status", "0")] if proto == P.GRPC else []), proto, accept_compression=[BY[a] for a in acc], codec=codec, rchunk=lambda b: cut(b, r))
        out = await call(mode, cl, kind, [M(b"q")])
        known = name in acc
        d = dict(mode=mode, proto=proto, accept=acc, name=name, ms=ms, cend=cend, out=out, decoded=codec.decoded)
        if name and name not in acc + ["identity"]:
            o.check("an encoding that was not offered is an error", not out.done and not codec.decoded, **d)
        elif not known and any(c for _, c in ms):
            k = [c for _, c in ms].index(True)
            o.check("a compressed message that was not announced is an error", not out.done and codec.decoded == [p for p, _ in ms[:k]], **d)
        else:
            o.check("exactly the marked messages are decompressed", out.done and out.msgs == [MO(p) for p, _ in ms], **d)
    for mode in MODES:  # unary connect: the name is validated
        for name in ("xa", "zz", "identity", None, ""):
            cl, _ = fake(mode, raw_answer(200, [("content-type", "application/raw")] + ([("content-encoding", name)] if name is not None else []), b"r"), accept_compression=[A])
            out = await call(mode, cl, "unary", [M(b"q")])
            o.check("a unary response with an encoding that was not offered is an error", out.done == (name in ("xa", "identity", None, "")), mode=mode, name=name, out=out)


@case("C12", bound="every client compression x accept set x kind x protocol x mode, with empty messages")
async def send_client(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for comp in (None, A, B):
                    for acc in ([], [A], [B, A], [A, B, C3]):
                        for get in ((False, True) if (proto, kind) == (P.CONNECT, "unary") else (False,)):
                            for payload in (b"", b"hello"):
                                if get and mode == "sync" and not payload:
                                    pass
                                svc = Service(lambda q, c: iter([MO(b"resp")]))
                                e = E2E(mode, proto, svc, server=dict(compressions=[A, B]), client_kw=dict(send_compression=comp, accept_compression=acc))
                                e.http.chunker = lambda b: [b] if b else []
                                u = undo_encoding
                                globals_ = None
                                import oracle.kit as kit
                                kit.undo_encoding = lambda h, b: undo(h.get("content-encoding", ""), b)
                                try:
                                    out = await e.call(kind, [M(payload)], **({"use_get": True} if get else {}))
                                finally:
                                    kit.undo_encoding = u
                                d = dict(mode=mode, proto=proto, kind=kind, comp=comp and comp.name(), acc=[a.name() for a in acc], get=get, req=e.req, out=out)
                                want = comp.name() if comp else "identity"
                                if get:
                                    q = parse_qs(urlsplit(e.req.url).query, keep_blank_values=True)
                                    o.check("GET names the compression in the query", q.get("compression", ["identity"]) == [want] and not e.req.header("content-encoding"), **d)
                                    m = base64.urlsafe_b64decode(q["message"][0] + "===")
                                    o.eq("and uses it", m, comp.compress(payload) if comp else payload, **d)
                                else:
                                    o.eq("the request names its compression once", e.req.header(enc_header(proto, kind)) or ["identity"], [want], **d)
                                    c = comp.compress(payload) if comp else payload
                                    o.eq("and uses it", e.req.body, c if (proto, kind) == (P.CONNECT, "unary") else frame(c, 1 if comp else 0), **d)
                                names = [x.strip() for x in (e.req.header(acc_header(proto, kind)) or [""])[0].split(",")]
                                o.check("the accept list is what the client can undo, in order", [n for n in names if n != "identity"] == [a.name() for a in acc], names=names, **d)
                                o.check("the call succeeds", out.done and out.msgs == [MO(b"resp")] and svc.calls[0]["reqs"] == [M(payload)], **d)


@case("C12", bound="the shipped algorithms on 60 random and special byte strings up to 1 MiB, bytes/bytearray/memoryview")
def algorithms(o):
    from connectrpc._compression import IdentityCompression
    from connectrpc.compression.gzip import GzipCompression
    algs = [IdentityCompression(), GzipCompression()]
    for mod, cls in (("brotli", "BrotliCompression"), ("zstd", "ZstdCompression")):
        try:
            algs.append(getattr(__import__(f"connectrpc.compression.{mod}", fromlist=[cls]), cls)())
        except ImportError:
            pass
    r = o.rnd
    datas = [b"", b"\x00", b"a" * 100000, bytes(range(256)) * 64, bytes(r.randrange(256) for _ in range(5000)), b"\x1f\x8b\x08", b"x" * (1 << 20)] + [blob(r) for _ in range(53)]
    for alg in algs:
        for x in datas:
            for conv in (bytes, bytearray, memoryview):
                c = alg.compress(conv(x))
                o.check("decompressing undoes compressing", bytes(alg.decompress(conv(bytes(c)))) == x and isinstance(c, bytes), alg=alg.name(), n=len(x), x=x[:20])
            # streaming compressors of peers
        if alg.name() == "gzip":
            import zlib
            for lvl in (0, 1, 9):
                z = zlib.compressobj(lvl, zlib.DEFLATED, 31)
                y = z.compress(b"abc" * 999) + z.flush()
                o.check("any gzip stream is read", alg.decompress(y) == b"abc" * 999, lvl=lvl)
        if alg.name() == "zstd":
            import zstandard
            y = zstandard.ZstdCompressor().compressobj()
            y = y.compress(b"abc" * 999) + y.flush()
            o.check("a zstd frame without content size is read", alg.decompress(y) == b"abc" * 999)
    names = [a.name() for a in algs]
    o.check("names are the registered ones", names == ["identity", "gzip", "br", "zstd"][:len(names)], names=names)
