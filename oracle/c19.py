"""C19: telemetry observes RPCs without changing them."""
import contextvars
import inspect
import logging

from oracle.core import case
from oracle.kit import *

from connectrpc_otel import ConnectInstrumentor, OpenTelemetryInterceptor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.trace import SpanKind, get_current_span

logging.getLogger("opentelemetry.context").setLevel(logging.CRITICAL)
PROPAGATION = {"traceparent", "tracestate", "baggage"}


class Sdk:
    def __init__(self):
        self.exporter = InMemorySpanExporter()
        self.tp = TracerProvider()
        self.tp.add_span_processor(SimpleSpanProcessor(self.exporter))
        self.reader = InMemoryMetricReader()
        self.mp = MeterProvider(metric_readers=[self.reader])

    def interceptor(self, client):
        return OpenTelemetryInterceptor(tracer_provider=self.tp, meter_provider=self.mp, client=client)

    def spans(self, kind):
        return [s for s in self.exporter.get_finished_spans() if s.kind == kind]

    def points(self, name):
        d = self.reader.get_metrics_data()
        if d is None:
            return []
        return [(dict(p.attributes), p.count, p.sum) for r in d.resource_metrics for sm in r.scope_metrics for m in sm.metrics if m.name == name for p in m.data.data_points]

    def close(self):
        self.tp.shutdown()
        self.mp.shutdown()


def apart(answer):
    """The server runs in a context of its own, as it does in another process."""
    def f(c):
        r = contextvars.Context().run(answer, c)
        if not inspect.iscoroutine(r):
            return r

        async def g():
            return await asyncio.create_task(r, context=contextvars.Context())
        return g()
    return f


def strip(hs):
    return sorted((k, v) for k, v in hs if k not in PROPAGATION)


def public(out, svc):
    e = out.error
    return dict(msgs=[m.b for m in out.msgs], done=out.done,
                error=(type(e).__name__, e.code, e.message, details_of(e)) if isinstance(e, ConnectError) else repr(e),
                headers=strip(out.headers), trailers=strip(out.trailers),
                calls=[(c["kind"], [m.b for m in c["reqs"]], c["complete"], strip(c["headers"]), c["timeout"], repr(c["req_error"]), c["closed"], c["http_method"]) for c in svc.calls])


class Odd(Exception):
    def __bool__(self):
        return True


class Foreign(Exception):
    """Looks like an RPC error, and is not."""

    def __init__(self, code):
        super().__init__("foreign")
        self.code, self.message, self.details = code, "foreign", ()


FAILS = [None, None, None, lambda: ConnectError(Code.NOT_FOUND, "nope"), lambda: ConnectError(Code.CANCELED, ""), lambda: ConnectError(Code.UNKNOWN, "u", details=details(("a.B", b"a"))),
         lambda: ValueError("bad"), lambda: Odd(), lambda: StopAsyncIteration(), lambda: KeyError(), lambda: ConnectError(Code.DEADLINE_EXCEEDED, "late"),
         lambda: Foreign(404), lambda: Foreign("teapot"), lambda: Foreign(Code.ABORTED), lambda: SystemError("s")]


def check_telemetry(o, sdk, kind, span_kind, metric, error, m, d, system="connectrpc"):
    """error: the Exception seen by the interceptor, or None"""
    sp = sdk.spans(span_kind)
    o.check("exactly one span", len(sp) == 1, spans=sp, side=span_kind, **d)
    pts = sdk.points(metric)
    o.check("exactly one measurement", len(pts) == 1 and pts[0][1] == 1 and pts[0][2] >= 0, pts=pts, side=span_kind, **d)
    if len(sp) != 1 or len(pts) != 1:
        return
    s, full = sp[0], f"{m.service_name}/{m.name}"
    o.check("the span is named after the method", s.name == full, name=s.name, **d)
    o.check("the span has ended", s.end_time is not None and s.end_time >= s.start_time, **d)
    want = {}
    if error is not None:
        want = {"error.type": type(error).__qualname__, "rpc.response.status_code": error.code.value if isinstance(error, ConnectError) else "unknown"}
    for at in (s.attributes, pts[0][0]):
        got = {k: v for k, v in at.items() if k in ("error.type", "rpc.response.status_code")}
        o.check("method and system attributes", at.get("rpc.method") == full and at.get("rpc.system.name") == system, at=dict(at), side=span_kind, **d)
        o.check("error attributes exactly when the RPC failed", got == want, got=got, want=want, side=span_kind, error=error, **d)
    o.check("the status of the span", (s.status.status_code.name == "ERROR") == (error is not None), status=s.status.status_code, **d)
    return s


@case("C19", bound="all kinds, protocols and modes x telemetry on client, server, both x 11 outcomes (raised before, after some or after all responses) x random metadata and addresses, each compared to the same call without telemetry; the server in a separate context")
async def transparent(o):
    for mode in MODES:
        for kind in KINDS:
            for _ in o.times(40, 400):
                proto, fail = o.rnd.choice(PROTOS), o.rnd.choice(FAILS)
                pos = o.rnd.randrange(0, 3)
                n = o.rnd.randrange(0, 4) if kind in ("server", "bidi") else 1
                reqs = [M(blob(o.rnd)) for _ in range(o.rnd.randrange(0, 4) if kind in ("client", "bidi") else 1)]
                hs = [("x-h", str(o.rnd.random())), ("x-t", "t")]
                seen = {}
                address = o.rnd.choice(ADDRESSES) if o.rnd.random() < .5 else "http://h.example"
                get = kind == "unary" and proto == P.CONNECT and o.rnd.random() < .3
                lvl = IdempotencyLevel.NO_SIDE_EFFECTS if get else None
                tmo = o.rnd.choice([None, 60000])
                cerr = o.rnd.random() < .15  # the client fails to encode
                nr = o.rnd.randrange(4)

                def one(tel_client, tel_server, sdk):
                    def beh(q, ctx):
                        ctx.response_headers["x-r"] = hs[0][1]
                        ctx.response_trailers["x-tr"] = "z"
                        if sdk:
                            seen["span"] = get_current_span().get_span_context()
                            seen["open"] = len(sdk.spans(SpanKind.SERVER)) == 0 and len(sdk.spans(SpanKind.CLIENT)) == 0
                        if fail and pos == 0:
                            raise seen.setdefault("err", fail())
                        for i in range(n):
                            yield MO(b"r%d" % i)
                            if fail and pos == 1:
                                raise seen.setdefault("err", fail())
                        if sdk and not (len(sdk.spans(SpanKind.SERVER)) == 0 and len(sdk.spans(SpanKind.CLIENT)) == 0):
                            seen["open"] = False
                        if fail:
                            raise seen.setdefault("err", fail())
                    codec = RawCodec()
                    if cerr:
                        codec.fail_encode = lambda m: True
                    e = E2E(mode, proto, Service(beh, early=nr == 0), server=dict(interceptors=[sdk.interceptor(False)]) if tel_server else {},
                            client_kw=dict(interceptors=[sdk.interceptor(True)] if tel_client else (), address=address, codec=codec))
                    e.http.answer = apart(e.http.answer)
                    return e
                plain = one(False, False, None)
                args = dict(headers=dict(hs), timeout_ms=tmo)
                if get:
                    args["use_get"] = True
                    args["m"] = method("unary", lvl)
                base = public(await plain.call(kind, reqs, **args), plain.svc)
                seen.clear()
                tc, ts = o.rnd.choice([(True, True), (True, False), (False, True)])
                sdk = Sdk()
                e = one(tc, ts, sdk)
                out = await e.call(kind, reqs, **args)
                got = public(out, e.svc)
                if tmo and proto != P.CONNECT or tmo:
                    for x in (base, got):  # remaining time varies
                        x["calls"] = [c[:4] + (c[4] is not None,) + c[5:] for c in x["calls"]]
                        x["calls"] = [c[:3] + ([h for h in c[3] if h[0] not in ("grpc-timeout", "connect-timeout-ms")],) + c[4:] for c in x["calls"]]
                d = dict(mode=mode, kind=kind, proto=proto, fail=fail and repr(fail()), pos=pos, n=n, reqs=reqs, address=address, client=tc, server=ts, get=get, cerr=cerr)
                o.eq("the outcome is that without telemetry", got, base, **d)
                m = args.get("m") or method(kind)
                cs = ss = None
                if tc:
                    cs = check_telemetry(o, sdk, kind, SpanKind.CLIENT, "rpc.client.call.duration", out.error, m, d)
                if ts and e.svc.calls:
                    err = seen.get("err")
                    if err is None and e.svc.calls[-1]["req_error"] is not None:
                        err = e.svc.calls[-1]["req_error"]
                    if isinstance(err, StopAsyncIteration) or kind in ("unary", "client") and isinstance(err, (StopIteration,)):
                        err = None  # Python turns it into another exception on the way
                    elif err is None or kind == "bidi" or not (kind in ("unary", "client") and pos and n):
                        ss = check_telemetry(o, sdk, kind, SpanKind.SERVER, "rpc.server.call.duration", err, m, d)
                    # else: the handler returned its first response before failing
                    if isinstance(err, Exception) or err is None:
                        o.check("the RPC is not over while the handler runs", seen.get("open", True), **d)
                if tc and ts and cs and ss:
                    o.check("the server span continues the client's trace", ss.context.trace_id == cs.context.trace_id and ss.parent is not None and ss.parent.span_id == cs.context.span_id and ss.parent.is_remote, ss=ss.to_json(), cs=cs.to_json(), **d)
                    if "span" in seen and kind in ("unary", "client"):
                        o.check("the handler runs within the span", seen["span"].span_id == ss.context.span_id, **d)
                o.check("nothing stays current", not get_current_span().get_span_context().is_valid, **d)
                sdk.close()


ADDRESSES = ["http://h", "http://h/", "http://h:1/p", "http://h/p/q/", "https://h", "https://h:8443/x", "http://[::1]", "http://[::1]:8080", "http://[2001:db8::1]/a:b", "http://127.0.0.1:65535", "http://u:p@h/",
             "http://h/a:99", "http://h/x:y", "http://xn--bcher-kva.example:80"]
HOSTS = ["", "h", "h:", "h:80", "h:x", ":80", ":", "::1", "[::1]", "[::1]:80", "[::1]:x", "a:b:c", "1.2.3.4:99999999999999999999", "h:-1", "h: 5", "h:5 ", " ", "[", "]:1", "h:1_0", "h:١", "é:1", "%zz", "h\t:3", "a" * 300, "h:80:90", None]
PEERS = [("1.2.3.4", 5), None, ("::1", 443), ("unix", 0), ("fe80::1%eth0", 1), ("", 0), ("testclient", 50000), ["1.1.1.1", 2], ("[::1]", 5)]


@case("C19", bound="27 Host headers and 9 peer addresses x http/https x all kinds and protocols (random), both modes, compared to the same request without telemetry")
async def addresses(o):
    for mode in MODES:
        for host in HOSTS:
            for _ in o.times(4, 20):
                kind, proto, peer = o.rnd.choice(KINDS), o.rnd.choice(PROTOS), o.rnd.choice(PEERS)
                fail = o.rnd.random() < .3
                scheme = o.rnd.choice(["http", "https"])

                def beh(q, ctx):
                    if fail:
                        raise ConnectError(Code.ABORTED, "x")
                    yield MO(b"r")
                hs = [("content-type", ctype(proto, kind))] + ([("host", host)] if host is not None else [])
                un = kind == "unary" and proto == P.CONNECT
                kw = dict(path="/p.S/" + method(kind).name, headers=hs, chunks=[b"q" if un else frame(b"q")], scheme=scheme)
                if mode == "async":
                    kw["client"] = peer
                else:
                    kw["extra"] = dict(REMOTE_ADDR=peer[0], REMOTE_PORT=str(peer[1])) if peer else dict(REMOTE_ADDR="")
                svc = Service(beh)
                base = await raw(mode, app(mode, svc), **kw)
                sdk, svc2 = Sdk(), Service(beh)
                got = await raw(mode, app(mode, svc2, interceptors=[sdk.interceptor(False)]), **kw)
                d = dict(mode=mode, host=host, peer=peer, kind=kind, proto=proto, fail=fail, scheme=scheme)
                o.check("an odd address changes nothing", repr(got.events) == repr(base.events) and repr(got.exc) == repr(base.exc) and len(svc2.calls) == len(svc.calls) == 1, got=got, base=base, exc=got.exc, **d)
                check_telemetry(o, sdk, kind, SpanKind.SERVER, "rpc.server.call.duration", ConnectError(Code.ABORTED, "x") if fail else None, method(kind), d)
                sdk.close()


@case("C19", bound="streams abandoned by the caller after 0-2 of 3 messages, RPCs whose task is cancelled, client and server, both modes")
async def abandoned(o):
    for mode in MODES:
        for kind in ("server", "bidi"):
            for proto in PROTOS:
                for k in (1, 2):
                    d = dict(mode=mode, kind=kind, proto=proto, taken=k)
                    sdk = Sdk()
                    e = E2E(mode, proto, Service(lambda q, c: iter([MO(b"a"), MO(b"b"), MO(b"c")])), client_kw=dict(interceptors=[sdk.interceptor(True)]))
                    meth, it = method(kind), None
                    if mode == "async":
                        async def gen():
                            yield M(b"q")
                        it = e.client.execute_server_stream(request=M(b"q"), method=meth) if kind == "server" else e.client.execute_bidi_stream(request=gen(), method=meth)
                        n = 0
                        async for _ in it:
                            n += 1
                            o.check("no span ended while the stream goes on", not sdk.spans(SpanKind.CLIENT), **d)
                            if n == k:
                                break
                        if hasattr(it, "aclose"):
                            await it.aclose()
                    else:
                        it = e.client.execute_server_stream(request=M(b"q"), method=meth) if kind == "server" else e.client.execute_bidi_stream(request=iter([M(b"q")]), method=meth)
                        n = 0
                        for _ in it:
                            n += 1
                            o.check("no span ended while the stream goes on", not sdk.spans(SpanKind.CLIENT), **d)
                            if n == k:
                                break
                        if hasattr(it, "close"):
                            it.close()
                    check_telemetry(o, sdk, kind, SpanKind.CLIENT, "rpc.client.call.duration", None, meth, d)
                    sdk.close()
                    if mode == "sync":
                        sdk = Sdk()
                        a = wsgi(Service(lambda q, c: iter([MO(b"a"), MO(b"b"), MO(b"c")])), interceptors=[sdk.interceptor(False)])
                        raw_wsgi(a, path="/p.S/" + meth.name, headers=[("content-type", ctype(proto, kind))], chunks=[frame(b"q")], stop_after=k)
                        check_telemetry(o, sdk, kind, SpanKind.SERVER, "rpc.server.call.duration", None, meth, dict(server=True, **d))
                        sdk.close()
    for kind in KINDS:
        sdk = Sdk()
        started = asyncio.Event()

        class Slow(Service):
            async def wait(self):
                started.set()
                await asyncio.sleep(100)

            async def a_unary(self, r, ctx):
                await self.wait()

            async def a_client(self, it, ctx):
                await self.wait()

            async def a_server(self, r, ctx):
                yield MO(b"a")
                await self.wait()
            a_bidi = a_server
        a = asgi(Slow(), interceptors=[sdk.interceptor(False)])
        meth = method(kind)
        t = asyncio.create_task(raw_asgi(a, path="/p.S/" + meth.name, headers=[("content-type", ctype(P.GRPC, kind))], chunks=[frame(b"q")]))
        await started.wait()
        o.check("open until cancelled", not sdk.spans(SpanKind.SERVER), kind=kind)
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        sp = sdk.spans(SpanKind.SERVER)
        o.check("a cancelled RPC has one span, ended", len(sp) == 1 and len(sdk.points("rpc.server.call.duration")) == 1, spans=sp, kind=kind)
        sdk.close()


@case("C19", bound="the instrumentor with interceptors given as list, tuple, iterator or not at all, with and without telemetry among them; all four classes")
async def instrumentor(o):
    sdk = Sdk()
    ci = ConnectInstrumentor()
    ci._tracer_provider, ci._meter_provider = sdk.tp, sdk.mp

    class Mark:
        def __init__(self, log):
            self.log = log

        async def on_start(self, ctx):
            self.log.append(get_current_span().get_span_context().is_valid)

        async def on_end(self, token, ctx, error):
            pass

        def on_start_sync(self, ctx):
            self.log.append(get_current_span().get_span_context().is_valid)

        def on_end_sync(self, token, ctx, error):
            pass
    for mode in MODES:
        for side in ("client", "server"):
            for given in (None, list, tuple, iter):
                for has in ((), ("tel",), ("mark",), ("tel", "mark"), ("mark", "tel"), ("mark", "mark")):
                    if given is None and has:
                        continue
                    log = []
                    ints = [sdk.interceptor(side == "client") if h == "tel" else Mark(log) for h in has]
                    kw = {} if given is None else dict(interceptors=given(ints))
                    sdk.exporter.clear()
                    built = {}

                    def wrapped(*args, **kws):
                        built["kw"] = kws
                        built["n"] = built.get("n", 0) + 1
                        return "ret"
                    r = ci._init_wrapper(wrapped, object(), ("a",), dict(kw, other=1), client=side == "client")
                    d = dict(mode=mode, side=side, given=given, has=has)
                    o.check("construction is passed on once", r == "ret" and built.get("n") == 1 and built["kw"].get("other") == 1, built=built, **d)
                    its = list(built["kw"].get("interceptors") or ())
                    e = E2E(mode, P.CONNECT, Service(), server=dict(interceptors=its) if side == "server" else {}, client_kw=dict(interceptors=its) if side == "client" else {})
                    e.http.answer = apart(e.http.answer)
                    out = await e.call("unary", [M(b"q")])
                    kind = SpanKind.CLIENT if side == "client" else SpanKind.SERVER
                    o.check("exactly one span per RPC", len(sdk.spans(kind)) == 1 and out.done, spans=sdk.spans(kind), out=out, **d)
                    o.check("all given interceptors are kept", len(log) == has.count("mark"), log=log, **d)
                    if "tel" not in has:
                        o.check("telemetry comes first", all(log), log=log, **d)
    sdk.close()
