"""C14: interceptors wrap calls in order and see each call once."""
from oracle.core import case
from oracle.kit import *

BEHS = ["pass", "pass", "req", "res", "before", "after", "skip", "catch"]
METAS = ["ok", "ok", "ok", "start_raises", "end_raises"]


class Fail(ConnectError):
    def __init__(self, m):
        super().__init__(Code.ABORTED, m)


def streaming_res(kind):
    return kind in ("server", "bidi")


def streaming_req(kind):
    return kind in ("client", "bidi")


# ---------------------------------------------------------------- reference
def reference(stack, kind, reqs, inner, log):
    """-> (responses, error message or None); inner(reqs) likewise."""
    if not stack:
        log.append(("inner", tuple(reqs)))
        return inner(reqs)
    (i, what, beh), rest = stack[0], stack[1:]
    if what == "meta":
        log.append(("start", i))
        if beh == "start_raises":
            return [], f"start{i}"
        out, err = reference(rest, kind, reqs, inner, log)
        log.append(("end", i, i, err))
        if beh == "end_raises":
            return (out if streaming_res(kind) else []), f"end{i}"
        return out, err
    log.append(("in", i))
    if beh == "before":
        return [], f"before{i}"
    if beh == "skip":
        log.append(("out", i))
        return [b"skip%d" % i], None
    if beh == "req":
        reqs = [b"%d<" % i + r for r in reqs]
    out, err = reference(rest, kind, reqs, inner, log)
    if err is not None and beh == "catch":
        log.append(("caught", i, err))
        if streaming_res(kind):
            out, err = out + [b"caught%d" % i], None
        else:
            out, err = [b"caught%d" % i], None
    if beh == "res":
        out = [r + b">%d" % i for r in out]
    if err is None and beh == "after":
        return (out if streaming_res(kind) else []), f"after{i}"
    if err is None:
        log.append(("out", i))
    return out, err


# ---------------------------------------------------------------- interceptors under test
def msg_of(e):
    return e.message if isinstance(e, ConnectError) else repr(e)


def build(i, kinds, beh, log, sync):
    def tr(m):
        return type(m)(b"%d<" % i + m.b)

    def rs(m):
        return type(m)(m.b + b">%d" % i)

    class A:
        pass

    def single(kind):
        async def f(self, call_next, request, ctx):
            log.append(("in", i))
            if beh == "before":
                raise Fail(f"before{i}")
            if beh == "skip":
                log.append(("out", i))
                return MO(b"skip%d" % i)
            if beh == "req":
                request = amap(request, tr) if kind == "client" else tr(request)
            try:
                r = await call_next(request, ctx)
            except Exception as e:
                if beh != "catch":
                    raise
                log.append(("caught", i, msg_of(e)))
                r = MO(b"caught%d" % i)
            if beh == "res":
                r = rs(r)
            if beh == "after":
                raise Fail(f"after{i}")
            log.append(("out", i))
            return r

        def g(self, call_next, request, ctx):
            log.append(("in", i))
            if beh == "before":
                raise Fail(f"before{i}")
            if beh == "skip":
                log.append(("out", i))
                return MO(b"skip%d" % i)
            if beh == "req":
                request = map(tr, request) if kind == "client" else tr(request)
            try:
                r = call_next(request, ctx)
            except Exception as e:
                if beh != "catch":
                    raise
                log.append(("caught", i, msg_of(e)))
                r = MO(b"caught%d" % i)
            if beh == "res":
                r = rs(r)
            if beh == "after":
                raise Fail(f"after{i}")
            log.append(("out", i))
            return r
        return g if sync else f

    def many(kind):
        async def f(self, call_next, request, ctx):
            log.append(("in", i))
            if beh == "before":
                raise Fail(f"before{i}")
            if beh == "skip":
                yield MO(b"skip%d" % i)
                log.append(("out", i))
                return
            if beh == "req":
                request = amap(request, tr) if kind == "bidi" else tr(request)
            try:
                async for r in call_next(request, ctx):
                    yield rs(r) if beh == "res" else r
            except Exception as e:
                if beh != "catch":
                    raise
                log.append(("caught", i, msg_of(e)))
                yield MO(b"caught%d" % i)
            if beh == "after":
                raise Fail(f"after{i}")
            log.append(("out", i))

        def g(self, call_next, request, ctx):
            log.append(("in", i))
            if beh == "before":
                raise Fail(f"before{i}")
            if beh == "skip":
                yield MO(b"skip%d" % i)
                log.append(("out", i))
                return
            if beh == "req":
                request = map(tr, request) if kind == "bidi" else tr(request)
            try:
                for r in call_next(request, ctx):
                    yield rs(r) if beh == "res" else r
            except Exception as e:
                if beh != "catch":
                    raise
                log.append(("caught", i, msg_of(e)))
                yield MO(b"caught%d" % i)
            if beh == "after":
                raise Fail(f"after{i}")
            log.append(("out", i))
        return g if sync else f

    sfx = "_sync" if sync else ""
    for k in kinds:
        n = {"unary": "intercept_unary", "client": "intercept_client_stream", "server": "intercept_server_stream", "bidi": "intercept_bidi_stream"}[k]
        setattr(A, n + sfx, single(k) if k in ("unary", "client") else many(k))
    return A()


async def amap(it, f):
    async for x in it:
        yield f(x)


def meta(i, beh, log, sync):
    tok = object()

    class Falsy(Exception):
        pass

    class A:
        async def on_start(self, ctx):
            return self._start()

        async def on_end(self, token, ctx, error):
            return self._end(token, error)

        def _start(self):
            log.append(("start", i))
            if beh == "start_raises":
                raise Fail(f"start{i}")
            return tok

        def _end(self, token, error):
            log.append(("end", i, i if token is tok else "wrong token", None if error is None else msg_of(error)))
            if beh == "end_raises":
                raise Fail(f"end{i}")

    class S:
        def on_start_sync(self, ctx):
            return A._start(self)

        def on_end_sync(self, token, ctx, error):
            return A._end(self, token, error)
    return S() if sync else A()


@case("C14", bound="random stacks of 0-5 interceptors (random subset of kinds or metadata; pass, change request or response, raise before or after, skip, catch) on servers and on clients, all kinds, protocols and modes; calls 1-3 on the same application")
async def stacks(o):
    for mode in MODES:
        for side in ("server", "client"):
            for kind in KINDS:
                for _ in o.times(120, 1500):
                    proto = o.rnd.choice(PROTOS)
                    n = o.rnd.randrange(0, 6)
                    log, stack, ints = [], [], []
                    for i in range(n):
                        if o.rnd.random() < .4:
                            beh = o.rnd.choice(METAS)
                            ints.append(meta(i, beh, log, mode == "sync"))
                            stack.append((i, "meta", beh))
                        else:
                            kinds = o.rnd.choice([[kind], [k for k in KINDS if o.rnd.random() < .5], [k for k in KINDS if k != kind], KINDS])
                            beh = o.rnd.choice(BEHS)
                            ints.append(build(i, kinds, beh, log, mode == "sync"))
                            if kind in kinds:
                                stack.append((i, "kind", beh))
                    reqs = [b"q%d" % j for j in range(o.rnd.randrange(0, 4) if streaming_req(kind) else 1)]
                    nres = o.rnd.randrange(0, 4) if streaming_res(kind) else 1
                    fail = o.rnd.random() < .3

                    def outcome(rq):
                        out = [b"r%d:" % j + b"|".join(rq) for j in range(nres)]
                        if fail:
                            return (out if streaming_res(kind) else []), "handler"
                        return out, None

                    def beh(q, c):
                        # the handler of a client stream runs after its requests were read, others before
                        rq = [m.b for m in q]
                        log.append(("inner", tuple(rq)))
                        out, err = outcome(rq)
                        for x in out:
                            yield MO(x)
                        if err:
                            raise Fail(err)
                    given = o.rnd.choice([list, tuple, iter, lambda x: (y for y in x)])
                    kw = dict(interceptors=given(list(ints)))
                    e = E2E(mode, proto, Service(beh), server=kw if side == "server" else {}, client_kw=kw if side == "client" else {})
                    for rep in range(o.rnd.choice([1, 1, 3])):
                        del log[:]
                        out = await e.call(kind, [M(r) for r in reqs])
                        want_log = []
                        wout, werr = reference(stack, kind, reqs, outcome, want_log)
                        got = ([m.b for m in out.msgs], out.error.message if isinstance(out.error, ConnectError) else out.error)
                        want = (wout, werr)
                        d = dict(mode=mode, side=side, kind=kind, proto=proto, stack=stack, reqs=reqs, nres=nres, fail=fail, rep=rep, got=got, want=want, log=log, want_log=want_log, out=out)
                        o.check("the caller gets what the outermost produced", got == want or (not streaming_res(kind) and got[1] == want[1]), **d)
                        o.check("each sees the call once, in order", norm(log) == norm(want_log), **d)


def norm(log):
    return [list(x) for x in log]


@case("C14", bound="two endpoints of each kind share one stack; interceptors of objects with all four methods")
async def all_kinds(o):
    for mode in MODES:
        for side in ("server", "client"):
            log = []
            ints = [build(i, KINDS, "res", log, mode == "sync") for i in range(3)]
            kw = dict(interceptors=iter(ints))
            e = E2E(mode, P.CONNECT, Service(lambda q, c: iter([MO(b"r")])), server=kw if side == "server" else {}, client_kw=kw if side == "client" else {})
            for _ in range(2):
                for kind in KINDS:
                    del log[:]
                    out = await e.call(kind, [M(b"q")])
                    o.check("order", [m.b for m in out.msgs] == [b"r>2>1>0"] and log == [("in", 0), ("in", 1), ("in", 2), ("out", 2), ("out", 1), ("out", 0)], mode=mode, side=side, kind=kind, out=out, log=log)


class Count:
    def __init__(self):
        self.log = []

    async def on_start(self, ctx):
        self.log.append(("start", None))
        return self

    async def on_end(self, token, ctx, error):
        self.log.append(("end" if token is self else "wrong token", error))

    def on_start_sync(self, ctx):
        self.log.append(("start", None))
        return self

    def on_end_sync(self, token, ctx, error):
        self.log.append(("end" if token is self else "wrong token", error))


@case("C14", bound="calls that are left early: streams closed after 0-3 messages, tasks cancelled after 0-25 loop steps, disconnecting clients; 1-2 metadata interceptors, both sides")
async def left_early(o):
    import gc
    ONCE = [("start", None), ("end", None)]

    async def settle():
        gc.collect()
        for _ in range(10):
            await asyncio.sleep(0)

    for proto in PROTOS:
        for kind in ("server", "bidi"):
            for n in (1, 2):
                for k in range(0, 4):
                    for mode in MODES:
                        ints = [Count() for _ in range(n)]
                        e = E2E(mode, proto, Service(lambda q, c: iter([MO(b"r")] * 5)), client_kw=dict(interceptors=ints))
                        kw = dict(request=M(b"q"), method=method(kind)) if kind == "server" else dict(method=method(kind))
                        if kind == "bidi":
                            async def areq():
                                yield M(b"q")
                            kw["request"] = areq() if mode == "async" else iter([M(b"q")])
                        g = getattr(e.client, f"execute_{kind}_stream")(**kw)
                        for _ in range(k):
                            (await g.__anext__()) if mode == "async" else next(g)
                        await g.aclose() if mode == "async" else g.close()
                        del g
                        await settle()
                        for i in ints:
                            o.check("a stream that the caller leaves starts and ends once", i.log == (ONCE if k else []), mode=mode, proto=proto, kind=kind, n=n, k=k, log=i.log)
                    # the server, when the WSGI server closes the response early, or the client disconnects
                    ints = [Count() for _ in range(n)]
                    a = wsgi(Service(lambda q, c: iter([MO(b"r")] * 5)), interceptors=ints)
                    raw_wsgi(a, path="/p.S/" + NAMES[kind], headers=[("content-type", ctype(proto, kind))], chunks=[frame(b"q")], stop_after=k)
                    await settle()
                    for i in ints:
                        o.check("a response that is closed early starts and ends once", i.log in ([], ONCE) and (k == 0 or i.log == ONCE), mode="sync", proto=proto, kind=kind, n=n, k=k, log=i.log)
        for kind in KINDS:
            for steps in range(0, 26):
                for n in (1, 2):
                    ints, cints = [Count() for _ in range(n)], [Count() for _ in range(n)]

                    class S(Service):
                        async def a_unary(self, r, ctx):
                            for _ in range(20):
                                await asyncio.sleep(0)
                            return MO(b"m")

                        async def a_client(self, it, ctx):
                            async for _ in it:
                                pass
                            for _ in range(20):
                                await asyncio.sleep(0)
                            return MO(b"m")

                        async def a_server(self, r, ctx):
                            for _ in range(4):
                                yield MO(b"m")
                                for _ in range(5):
                                    await asyncio.sleep(0)

                        async def a_bidi(self, it, ctx):
                            async for _ in it:
                                pass
                            for _ in range(4):
                                yield MO(b"m")
                                for _ in range(5):
                                    await asyncio.sleep(0)
                    e = E2E("async", proto, S(), server=dict(interceptors=ints), client_kw=dict(interceptors=cints))
                    t = asyncio.ensure_future(e.call(kind, [M(b"q")]))
                    for _ in range(steps):
                        await asyncio.sleep(0)
                    t.cancel()
                    try:
                        await t
                    except asyncio.CancelledError:
                        pass
                    await settle()
                    for side, xs in (("server", ints), ("client", cints)):
                        for i in xs:
                            d = dict(proto=proto, kind=kind, steps=steps, n=n, side=side, log=i.log)
                            o.check("a cancelled call starts and ends once", [x[0] for x in i.log] in ([], ["start", "end"]), **d)
                            if i.log and side == "server":
                                er = i.log[1][1]
                                o.check("cancellation counts as none", er is None or isinstance(er, ConnectError) and er.code == Code.CANCELED, **d)
