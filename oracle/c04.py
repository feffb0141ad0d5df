"""C04: code and status mappings, exhaustive."""
from oracle.core import case
from oracle.kit import *


@case("C04", bound="exhaustive: 16 codes, both modes")
async def server_status(o):
    for mode in MODES:
        for code in ALL_CODES:
            def beh(q, c):
                raise ConnectError(code, "m")
                yield
            r = await raw(mode, app(mode, Service(beh)), headers=[("content-type", "application/raw")], chunks=[b"x"])
            o.eq("HTTP status of the code", r.status, HTTP_OF[code], mode=mode, code=code)
            o.eq("code string", (r.error_json() or {}).get("code"), code.value, mode=mode, res=r)
            for proto in (P.GRPC, P.GRPC_WEB):
                for kind in KINDS:
                    r = await raw(mode, app(mode, Service(beh)), path="/p.S/" + NAMES[kind],
                                  headers=[("content-type", ctype(proto, kind))], chunks=[frame(b"x")])
                    v = verdict(r, proto, kind)
                    o.check("gRPC status number of the code", r.status == 200 and v.code == code and v.ok is False, code=code, proto=proto, res=r)
                    if proto == P.GRPC:
                        o.eq("status trailer text", [x for k, x in r.trailers if k == "grpc-status"], [str(GRPC_NUM[code])], code=code)
        for proto in (P.GRPC, P.GRPC_WEB):
            r = await raw(mode, app(mode, Service()), headers=[("content-type", ctype(proto, "unary"))], chunks=[frame(b"x")])
            o.check("success is status 0", verdict(r, proto, "unary").ok is True, proto=proto, res=r)


@case("C04", bound="exhaustive: statuses 100..599, bodies without a code")
async def from_http(o):
    bodies = [("application/json", b"{}"), ("application/json", b'{"message": "hi"}'), ("text/html", b"<p>no</p>"), ("application/json", b"[1]"),
              ("application/json", b""), ("", b""), ("application/json", b'{"code": ""}'), ("application/json", b'{"code": null}')]
    for mode in MODES:
        for st in range(100, 600):
            if st == 200:
                continue
            picks = bodies if st in CODE_OF_HTTP or st in (201, 204, 300, 304, 402, 405, 408, 409, 412, 413, 415, 499, 500, 501, 505) else [bodies[st % len(bodies)]]
            for ct, b in picks:
                for proto, kind in ((P.CONNECT, "unary"), (P.CONNECT, "bidi"), (P.GRPC, "unary"), (P.GRPC_WEB, "server")):
                    cl, _ = fake(mode, raw_answer(st, [("content-type", ct)] if ct else [], b), proto)
                    out = await call(mode, cl, kind, [M(b"q")])
                    o.check("the code follows the HTTP status", out.code == CODE_OF_HTTP.get(st, Code.UNKNOWN) and not out.done,
                            mode=mode, status=st, ct=ct, body=b, proto=proto, kind=kind, out=out)


@case("C04", bound="exhaustive codes in error bodies with conflicting HTTP statuses")
async def from_body(o):
    for mode in MODES:
        for code in ALL_CODES:
            for st in (400, 401, 403, 404, 409, 418, 429, 499, 500, 501, 502, 503, 504):
                cl, _ = fake(mode, raw_answer(st, [("content-type", "application/json")], json.dumps({"code": code.value, "message": "m"}).encode()))
                for kind in ("unary", "server"):
                    out = await call(mode, cl, kind, [M(b"q")])
                    o.check("the code in the body wins", out.code == code, mode=mode, status=st, code=code, out=out)


@case("C04", bound="exhaustive statuses for 8 unknown code names, in error bodies and end-of-stream messages")
async def unknown_names(o):
    names = ["nonsense", "NOT_FOUND", "not_found ", "ok", "code_5", "5", "\u00e9", "cancelled"]
    for mode in MODES:
        for st in (400, 401, 403, 404, 409, 418, 429, 499, 500, 501, 502, 503, 504):
            for name in names:
                body = json.dumps({"code": name, "message": "m"}).encode()
                cl, _ = fake(mode, raw_answer(st, [("content-type", "application/json")], body))
                for kind in ("unary", "server"):
                    out = await call(mode, cl, kind, [M(b"q")])
                    o.check("an unknown name is unavailable", out.code == Code.UNAVAILABLE and not out.done, mode=mode, status=st, name=name, out=out)
        for name in names:
            end = frame(json.dumps({"error": {"code": name, "message": "m"}}).encode(), 2)
            cl, _ = fake(mode, raw_answer(200, [("content-type", ctype(P.CONNECT, "server"))], end))
            out = await call(mode, cl, "server", [M(b"q")])
            o.check("an unknown name at the end of a stream is unknown", out.code == Code.UNKNOWN and not out.done, mode=mode, name=name, out=out)


@case("C04", bound="exhaustive: grpc-status -20..200 and 30 odd values, in trailers, trailers-only headers and trailer frames")
async def grpc_status(o):
    odd = ["", " ", "00", "0x0", "0 ", " 0", "+0", "-0", "0.0", "abc", "OK", "1 ", "01", "1e0", "999999999999", "\u0660", "None", "true"]
    for mode in MODES:
        for s in [str(i) for i in range(-20, 201)] + odd:
            want = None if s == "0" else (NUM_CODE.get(int(s), Code.UNKNOWN) if s.isascii() and s.isdigit() and str(int(s)) == s else "nonzero")
            for how in ("trailers", "only", "web", "body"):
                if how == "web":
                    a, proto = raw_answer(200, [("content-type", "application/grpc-web+raw")], frame(f"grpc-status: {s}\r\ngrpc-message: m%20m\r\n".encode(), 128)), P.GRPC_WEB
                elif how == "only":
                    a, proto = raw_answer(200, [("content-type", "application/grpc+raw"), ("grpc-status", s)]), P.GRPC
                else:
                    a, proto = raw_answer(200, [("content-type", "application/grpc+raw")], frame(b"m") if how == "body" else b"", [("grpc-status", s), ("grpc-message", "m%20m")]), P.GRPC
                cl, _ = fake(mode, a, proto)
                out = await call(mode, cl, "server", [M(b"q")])
                d = dict(mode=mode, status=s, how=how, out=out)
                if want is None:
                    o.check("status 0 is success", out.done, **d)
                elif want == "nonzero":
                    # a malformed status is never a success, unless the transport normalises it to 0
                    if s.strip() != "0":
                        o.check("a malformed status is an error", not out.done and isinstance(out.error, ConnectError), **d)
                else:
                    o.check("the code of the status", out.code == want and not out.done, want=want, **d)


@case("C04", bound="exhaustive: status code numbers 0..40 inside grpc-status-details-bin")
async def grpc_details_status(o):
    import base64
    from connectrpc._gen.status_pb import Status
    for mode in MODES:
        for n in range(1, 41):
            b = base64.b64encode(Status(code=n, message="mm").to_binary()).decode().rstrip("=")
            cl, _ = fake(mode, raw_answer(200, [("content-type", "application/grpc+raw")], b"", [("grpc-status", str(n)), ("grpc-status-details-bin", b)]), P.GRPC)
            out = await call(mode, cl, "server", [M(b"q")])
            o.check("the code of the details", out.code == NUM_CODE.get(n, Code.UNKNOWN) and out.error.message == "mm", mode=mode, n=n, out=out)
