"""C03: handler errors, executed."""
from oracle.core import case
from oracle.kit import *


class Boom(Exception):
    pass


@case("C03", bound="random codes, messages (control, percent, unicode), 0-3 details, 0-3 messages sent before, every protocol, kind and mode, compressed or not")
async def errors(o):
    for i in o.times(700):
        r = o.rnd
        mode, proto, kind = r.choice(MODES), r.choice(PROTOS), r.choice(KINDS)
        code, msg, ds = r.choice(ALL_CODES), text(r), rand_details(r)
        before = [MO(blob(r)) for _ in range(r.randrange(4) if kind in ("server", "bidi") else 0)]
        foreign = r.random() < .2

        def beh(q, c):
            yield from before
            if foreign:
                raise r.choice([Boom, ValueError, KeyError, RuntimeError])(msg)
            raise ConnectError(code, msg, details(*ds))

        if kind in ("unary", "client"):
            def beh(q, c, inner=beh):
                return inner(q, c)
        if r.random() < .3:
            base = beh

            def beh(q, c):
                c.response_headers["x-h"] = "1"
                c.response_trailers["x-t"] = "2"
                return base(q, c)
        e = E2E(mode, proto, Service(beh), server=dict(compressions=[XorCompression()]),
                client_kw=dict(accept_compression=r.choice([[], [XorCompression()]])), rchunk=lambda b: cut(b, r))
        out = await e.call(kind, [M(b"q")])
        d = dict(mode=mode, proto=proto, kind=kind, code=code, msg=msg, details=ds, before=before, foreign=foreign, out=out)
        o.check("the call fails", not out.done and isinstance(out.error, ConnectError), **d)
        if out.error is None or not isinstance(out.error, ConnectError):
            continue
        o.eq("the messages sent before are delivered", out.msgs, before, **d)
        if foreign:
            o.eq("any other exception has code unknown", out.code, Code.UNKNOWN, **d)
            continue
        o.eq("same code", out.code, code, **d)
        o.eq("same message", out.error.message, msg, **d)
        o.eq("same details", details_of(out.error), ds, **d)


@case("C03", bound="every code, protocol, kind and mode, with a response message before and without")
async def matrix(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for code in ALL_CODES:
                    for n in ((0, 1) if kind in ("server", "bidi") else (0,)):
                        for ds in ([], [("a.B", b"\xff\xfe"), ("c.D", b"")]):
                            def beh(q, c):
                                for _ in range(n):
                                    yield MO(b"m")
                                raise ConnectError(code, "m 100% é", details(*ds))

                            out = await E2E(mode, proto, Service(beh)).call(kind, [M(b"q")])
                            o.check("the error arrives intact", out.error is not None and out.code == code and
                                    out.error.message == "m 100% é" and details_of(out.error) == ds, mode=mode, proto=proto,
                                    kind=kind, code=code, n=n, ds=ds, out=out)


@case("C03", bound="details given as messages (packed), one pass iterables and lists")
async def detail_kinds(o):
    from protobuf.wkt import Duration, StringValue
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                for make in (list, tuple, iter):
                    def beh(q, c):
                        raise ConnectError(Code.ABORTED, "x", make([StringValue(value="v" * 30), Duration(seconds=5), StringValue(value="")]))
                        yield

                    out = await E2E(mode, proto, Service(beh)).call(kind, [M(b"q")])
                    want = [("google.protobuf.StringValue", StringValue(value="v" * 30).to_binary()),
                            ("google.protobuf.Duration", Duration(seconds=5).to_binary()), ("google.protobuf.StringValue", b"")]
                    o.check("packed details arrive", out.error is not None and details_of(out.error) == want, mode=mode, proto=proto,
                            kind=kind, make=make, out=out)


@case("C03", bound="400 random error payloads through each encoder/decoder pair")
async def wire(o):
    from connectrpc._protocol import ConnectWireError
    for i in o.times(400):
        r = o.rnd
        code, msg, ds = r.choice(ALL_CODES), text(r, 40), rand_details(r)
        we = ConnectWireError.from_exception(ConnectError(code, msg, details(*ds)))
        back = ConnectWireError.from_dict(json.loads(we.to_json_bytes()), 500, Code.UNKNOWN).to_exception()
        o.check("the JSON form reads back", (back.code, back.message, details_of(back)) == (code, msg, ds), code=code, msg=msg, ds=ds, back=back)
