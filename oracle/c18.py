"""C18: the ASGI lifespan."""
from oracle.core import case
from oracle.kit import *


class Gen:
    def __init__(self, svc, start=None, stop=None, extra_yield=False):
        self.svc, self.start, self.stop, self.log, self.extra = svc, start, stop, [], extra_yield

    async def run(self):
        self.log.append("start")
        if self.start == "none":
            return
        if self.start:
            raise self.start
        try:
            yield self.svc
            self.log.append("resumed")
        finally:
            self.log.append("close")
            if self.stop:
                raise self.stop
            self.log.append("closed")


async def lifespan(a, msgs, on=None):
    sent = []
    it = list(msgs)

    async def receive():
        if not it:
            raise EOFError
        m = it.pop(0)
        if on:
            r = on(m, sent)
            if asyncio.iscoroutine(r):
                await r
        return {"type": m}

    async def send(m):
        sent.append(m)
        if on:
            r = on(m["type"], sent)
            if asyncio.iscoroutine(r):
                await r
    err = None
    try:
        await a({"type": "lifespan"}, receive, send)
    except EOFError:
        err = "eof"
    except Exception as e:
        err = e
    return sent, err, it


class Boom(Exception):
    pass


FAILS = [None, Boom("start failed"), ValueError(""), RuntimeError("ü\n"), ConnectError(Code.ABORTED, "ce")]
S, D = "lifespan.startup", "lifespan.shutdown"


@case("C18", bound="generator or plain service x start failures x stop failures x shutdown sent or not, with 0-3 requests in between, with noise after shutdown")
async def sequence(o):
    for genr in (True, False):
        for start in FAILS if genr else [None]:
            for stop in FAILS if genr and start is None else [None]:
                for nreq in (0, 1, 3):
                    for tail in ([], [S], [D, S]):
                        svc = Service(lambda q, c: iter([MO(b"r")]))
                        g = Gen(svc, start, stop)
                        calls = []
                        a = AApp(service=g.run() if genr else svc, endpoints=lambda s: (calls.append(s), aendpoints(s))[1], codecs=[RawCodec()])
                        oks = []
                        order = []

                        async def on(t, sent):
                            order.append((t, list(g.log)))
                            if t == "lifespan.startup.complete":
                                for _ in range(nreq):
                                    oks.append(await raw_asgi(a, headers=[("content-type", "application/raw")], chunks=[b"x"]))
                        sent, err, left = await lifespan(a, [S, D] + tail, on)
                        types = [m["type"] for m in sent]
                        d = dict(gen=genr, start=repr(start), stop=repr(stop), nreq=nreq, tail=tail, sent=sent, err=err, log=g.log, order=order)
                        if start is not None:
                            o.check("a failed start is reported once with its message and nothing else", sent == [{"type": "lifespan.startup.failed", "message": str(start)}] and err is None, **d)
                            o.check("the generator was advanced once", g.log == ["start"], **d)
                            r = await raw_asgi(a, headers=[("content-type", "application/raw")], chunks=[b"x"])
                            o.check("requests fail without a service", not svc.calls and r.exc is not None and r.status != 200, r=r, **d)
                            continue
                        o.check("the service resolved is the one given", all(s is svc for s in calls) and len(calls) >= 1, calls=calls, **d)
                        o.check("all requests are served by it", len(svc.calls) == nreq and all(r.status == 200 and r.body == b"r" for r in oks), oks=oks, **d)
                        want = [{"type": "lifespan.startup.complete"}, {"type": "lifespan.shutdown.complete"} if stop is None else {"type": "lifespan.shutdown.failed", "message": str(stop)}]
                        o.check("one answer per message, then it returns", sent == want and err is None and left == tail, **d)
                        if genr:
                            o.check("advanced once, closed once", g.log == ["start", "close"] + (["closed"] if stop is None else []), **d)
                            at = dict((t, l) for t, l in order if t.startswith("lifespan.s") and t.count(".") == 2)
                            o.check("started before complete", at["lifespan.startup.complete"] == ["start"], **d)
                            o.check("closed before shutdown is answered", "close" in list(at.values())[-1], **d)


@case("C18", bound="no lifespan at all: generator service and plain service; shutdown without startup; an exhausted generator")
async def without(o):
    for kind in KINDS:
        svc = Service()
        g = Gen(svc)
        a = AApp(service=g.run(), endpoints=aendpoints, codecs=[RawCodec()])
        for _ in range(3):
            r = await raw_asgi(a, path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(P.CONNECT, kind))], chunks=[frame(b"x")])
            o.check("an unstarted generator service fails the request", isinstance(r.exc, Exception) and not svc.calls and g.log == [] and r.status is None, kind=kind, r=r)
        svc = Service()
        a = asgi(svc)
        for i in range(3):
            r = await raw_asgi(a, path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(P.CONNECT, kind))], chunks=[frame(b"x")])
            o.check("a plain service needs no lifespan", r.exc is None and r.status == 200 and len(svc.calls) == i + 1, kind=kind, r=r)
    svc = Service()
    g = Gen(svc)
    a = AApp(service=g.run(), endpoints=aendpoints, codecs=[RawCodec()])
    sent, err, left = await lifespan(a, [D])
    o.check("a shutdown alone is answered", [m["type"] for m in sent] == ["lifespan.shutdown.complete"] and err is None and "close" not in g.log, sent=sent, err=err)
    g = Gen(svc, "none")
    a = AApp(service=g.run(), endpoints=aendpoints, codecs=[RawCodec()])
    sent, err, left = await lifespan(a, [S])
    o.check("a generator without a service fails the startup", [m["type"] for m in sent] == ["lifespan.startup.failed"] and err is None, sent=sent, err=err)
    a = asgi(Service())
    e = None
    try:
        await a({"type": "websocket"}, None, None)
    except RuntimeError as x:
        e = x
    o.check("websockets are refused", e is not None)


@case("C18", bound="an endpoints function that is called with the yielded service; requests after shutdown of a plain service; interleaved requests")
async def yielded(o):
    svcs = [Service(lambda q, c, i=i: iter([MO(b"%d" % i)])) for i in range(3)]
    for i in range(3):
        g = Gen(svcs[i])
        a = AApp(service=g.run(), endpoints=aendpoints, codecs=[RawCodec()])
        go = asyncio.Event()
        up = asyncio.Event()

        async def receive(st=[]):
            st.append(1)
            if len(st) == 1:
                return {"type": S}
            await go.wait()
            return {"type": D}
        sent = []

        async def send(m):
            sent.append((m, list(g.log)))
            up.set()
        st = []

        async def recv():
            st.append(1)
            if len(st) == 1:
                return {"type": S}
            await go.wait()
            return {"type": D}
        t = asyncio.ensure_future(a({"type": "lifespan"}, recv, send))
        await up.wait()
        rs = await asyncio.gather(*[raw_asgi(a, headers=[("content-type", "application/raw")], chunks=[b"x"]) for _ in range(5)])
        o.check("requests during the lifespan use the yielded service", all(r.status == 200 and r.body == b"%d" % i for r in rs) and g.log == ["start"], rs=rs, log=g.log)
        o.check("the lifespan waits", not t.done())
        go.set()
        await t
        o.check("closed before shutdown.complete", sent[-1][0]["type"] == "lifespan.shutdown.complete" and sent[-1][1] == ["start", "close", "closed"], sent=sent)
