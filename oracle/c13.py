"""C13: deadlines cross the wire."""
import re
import time

from oracle.core import case
from oracle.kit import *

HEADER = {P.CONNECT: "connect-timeout-ms", P.GRPC: "grpc-timeout", P.GRPC_WEB: "grpc-timeout"}
UNIT_NS = {"H": 3600 * 10**9, "M": 60 * 10**9, "S": 10**9, "m": 10**6, "u": 10**3, "n": 1}
EDGES = [1, 2, 9, 10, 999, 1000, 1001, 99999, 10**6, 10**7, 10**8 - 1, 10**8, 10**8 + 1, 123456789, 10**9 - 1, 10**9, 9999999999]
BIG = [10**10, 10**11 - 1, 10**11, 10**11 + 59999, 6 * 10**12 - 1, 6 * 10**12, 6 * 10**12 + 3599999, 36 * 10**13 - 1]


@case("C13", bound="edge and random timeouts up to the protocol's maximum, each protocol, mode and kind; per-call and default")
async def end_to_end(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                vals = EDGES + (BIG if proto != P.CONNECT else [])
                vals = vals if o.tier != "quick" or kind in ("unary", "bidi") else o.rnd.sample(vals, 5)
                vals = vals + [o.rnd.randrange(1, 10 ** o.rnd.randrange(1, 11)) for _ in range(5 if o.tier == "quick" else 60)]
                for t in vals:
                    for via in ("call", "default", "both"):
                        ckw = {} if via == "call" else dict(timeout_ms=t if via == "default" else o.rnd.choice([1, 5 * t + 7, 77777]))
                        t0 = time.monotonic()
                        e = E2E(mode, proto, client_kw=ckw)
                        out = await e.call(kind, [M(b"q")], timeout_ms=None if via == "default" else t)
                        el = (time.monotonic() - t0) * 1000
                        hs = e.req.header(HEADER[proto])
                        d = dict(mode=mode, proto=proto, kind=kind, t=t, via=via, header=hs, out=out)
                        if out.code == Code.DEADLINE_EXCEEDED and t < 2000:
                            continue
                        o.check("a call within its deadline succeeds", out.done or t < 50, **d)
                        if len(hs) != 1:
                            o.check("one timeout header", False, **d)
                            continue
                        h = hs[0]
                        if proto == P.CONNECT:
                            o.check("the header is the milliseconds", h == str(t), **d)
                            unit = 1
                        else:
                            m = re.fullmatch(r"([0-9]{1,8})([HMSmun])", h)
                            if not o.check("the header has at most 8 digits and a unit", m is not None, **d):
                                continue
                            ns = int(m[1]) * UNIT_NS[m[2]]
                            unit = UNIT_NS[m[2]] / 1e6
                            o.check("never more than the timeout, and less only by rounding", ns <= t * 10**6 and t * 10**6 - ns < UNIT_NS[m[2]], **d)
                            o.check("milliseconds are used while they fit", m[2] == "m" or t >= 10**8 or m[2] in "un", **d)
                        if e.svc.calls:
                            s = e.svc.calls[0]["timeout"]
                            o.check("the handler sees the remaining time", s is not None and s <= t + 1e-3 * max(1, t * 1e-9) and s > t - unit - el - 2, seen=s, **d)
                        if mode == "sync":
                            tt = e.http.timeouts[0]
                            o.check("the transport gets the remaining time", tt is not None and tt * 1000 <= t + 1e-3 * max(1, t * 1e-9) and tt * 1000 > t - el - 2, given=tt, **d)


@case("C13", bound="each protocol, mode and kind")
async def none(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                e = E2E(mode, proto)
                out = await e.call(kind, [M(b"q")])
                d = dict(mode=mode, proto=proto, kind=kind, out=out)
                o.check("no header without a timeout", not e.req.header(HEADER[proto]), **d)
                o.check("and the handler sees none", e.svc.calls and e.svc.calls[0]["timeout"] is None, **d)
                if mode == "sync":
                    o.check("nor does the transport", e.http.timeouts == [None], **d)


@case("C13", bound="every unit and digit count 1-8, edge and random values; Connect 1-10 digits; each mode and kind")
async def server_reads(o):
    for mode in MODES:
        for proto in PROTOS:
            for kind in KINDS:
                hs = []
                if proto == P.CONNECT:
                    vals = [0, 1, 10, 1000, 9999999999, 1234567890] + [o.rnd.randrange(10 ** o.rnd.randrange(1, 11)) for _ in range(10)]
                    hs = [(str(v), v * 10**6) for v in vals] + [("0000000001", 10**6)]
                else:
                    for u in UNIT_NS:
                        vals = [0, 1, 9, 999, 1000, 1001, 99999999, 29000000, 12345678, 1999999] + [o.rnd.randrange(10 ** o.rnd.randrange(1, 9)) for _ in range(10)]
                        hs += [(f"{v}{u}", v * UNIT_NS[u]) for v in vals] + [("00000001" + u, UNIT_NS[u])]
                if o.tier == "quick" and kind not in ("unary",):
                    hs = o.rnd.sample(hs, min(len(hs), 15))
                for h, ns in hs:
                    svc = Service()
                    t0 = time.monotonic()
                    await raw(mode, app(mode, svc), path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind)), (HEADER[proto], h)],
                              chunks=[b"x" if (proto, kind) == (P.CONNECT, "unary") else frame(b"x")])
                    el = (time.monotonic() - t0) * 1000
                    s = svc.calls[0]["timeout"] if svc.calls else None
                    ms = ns / 1e6
                    o.check("the handler's remaining time is what the header denotes", s is not None and s <= ms + 0.51 + ms * 1e-9 and s > ms - 1.01 - el - ms * 1e-9,
                            mode=mode, proto=proto, kind=kind, header=h, seen=s, denotes_ms=ms)


@case("C13", bound="a transport that answers after 0.5 s with a deadline of 40 ms, async client, each protocol and kind")
async def enforced(o):
    async def one(proto, kind):
        async def answer(c):
            await asyncio.sleep(0.5)
            return raw_answer(200, [("content-type", ctype(proto, kind))], b"")(c)
        cl, _ = fake("async", answer, proto)
        t0 = time.monotonic()
        out = await acall(cl, kind, [M(b"q")], timeout_ms=40)
        return proto, kind, out, time.monotonic() - t0
    for proto, kind, out, el in await asyncio.gather(*[one(p, k) for p in PROTOS for k in KINDS]):
        o.check("the deadline ends the call", out.code == Code.DEADLINE_EXCEEDED, proto=proto, kind=kind, out=out, elapsed=el)
