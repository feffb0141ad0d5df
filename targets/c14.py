"""C14: interceptors."""
from pyvc.harness import *
from targets.world import *

STREAM_REQ, STREAM_RES = ("client_stream", "bidi_stream"), ("server_stream", "bidi_stream")


# ------------------------------------------------------------------ metadata interceptors
class Meta(Ghost):
    """A metadata interceptor and what it saw."""

    def __init__(self, h, start="ok", end="ok", note=None):
        from connectrpc.code import Code
        from connectrpc.errors import ConnectError

        self.h, self.start, self.end, self.note = h, start, end, note
        self.token = message(h, "token")
        self.starts = 0
        self.ends = 0
        self.error = None
        self.same = True
        self.ctx = None
        self.start_error = h.new(ConnectError, Code.DATA_LOSS, "start")
        self.end_error = h.new(ConnectError, Code.OUT_OF_RANGE, "end")

    def _start(self, ctx):
        self.starts = self.starts + 1
        self.ctx = ctx
        if self.note is not None:
            self.note("start")
        if self.start == "raises":
            raise self.start_error
        return self.token

    def _end(self, token, ctx, error):
        self.ends = self.ends + 1
        self.error = error
        self.same = token is self.token and ctx is self.ctx
        if self.note is not None:
            self.note("end")
        if self.end == "raises":
            raise self.end_error


class AMeta(Meta):
    async def on_start(self, ctx):
        return self._start(ctx)

    async def on_end(self, token, ctx, error):
        self._end(token, ctx, error)


class SMeta(Meta):
    def on_start_sync(self, ctx):
        return self._start(ctx)

    def on_end_sync(self, token, ctx, error):
        self._end(token, ctx, error)


def metadata(h, mode, note=None):
    how = h.choice("metadata interceptor", ["ok", "start raises", "end raises"])
    return (AMeta if mode == "async" else SMeta)(h, "raises" if "start" in how else "ok", "raises" if "end" in how else "ok", note)


class Kept(Responses if SYMBOLIC else object):
    """Keeps the exception it ends with."""

    error = None

    def step(self):
        try:
            return super().step()
        except BaseException as e:
            self.error = e
            raise


def judge(h, prop, m, called, error):
    """Of a metadata interceptor, when the call is over.  error: what the rest of it raised."""
    h.check(f"{prop}: one start", m.starts == 1)
    if m.start == "raises":
        h.cover("a start that fails")
        h.check(f"{prop}: no end without a start", m.ends == 0)
        h.check(f"{prop}: nor the rest of the call", not called)
        return
    h.cover("a call")
    h.check(f"{prop}: one end", m.ends == 1)
    h.check(f"{prop}: with the value of start", m.same)
    if error is None or not isinstance(error, Exception):
        h.check(f"{prop}: with no error when the call did not fail", m.error is None)
    else:
        h.check(f"{prop}: with the error of the call", m.error is error)


@target("C14", "server_stream", split={"mode": 2, "protocol": 3, "kind": 2}, reentry=True)
def server_stream(h):
    """A metadata interceptor around a handler that yields any number of messages."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", STREAM_RES)
    out = Kept(h, ["done", "rpc_error", "error"] + (["cancelled"] if mode == "async" else []))
    calls = []

    def note(what):
        if what == "start":
            h.check("C14.server: the start comes before the rest of the call", not calls)
        else:
            h.check("C14.server: the end comes after the rest of the call", out.state is not None)
    m = metadata(h, mode, note)

    def fn(request, ctx):
        calls.append(ctx)
        return out
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], interceptors=[m])
    mon = Monitor(h, "C14.server", proto)
    body = [frame(h, 0, b"m")]

    async def receive():
        return h.dict([("type", "http.request"), ("body", body.pop(0) if body else b""), ("more_body", False)])
    serve_stream(h, mode, app, mon, [("content-type", CT[proto])], receive=receive, wsgi_input=WsgiInput(h, body))
    judge(h, "C14.server", m, calls, out.error)
    if m.start == "raises":
        h.check("C14.server: an error of start is the call's", not mon.success())
        return
    h.check("C14.server: every message passes", h.eq(mon.n, out.n))
    h.check("C14.server: the call ends as the rest of it, or as the end fails", mon.success() == (out.state == "done" and m.end == "ok"))


@target("C14", "server_single", split={"mode": 2, "protocol": 3, "kind": 2})
def server_single(h):
    """A metadata interceptor around a handler of one response."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", ["unary", "client_stream"])
    how = h.choice("ends", ["done", "rpc_error", "error"] + (["cancelled"] if mode == "async" else []))
    calls, errors = [], []

    def note(what):
        h.check("C14.server: the start comes before and the end after", bool(calls) == (what == "end"))
    m = metadata(h, mode, note)

    def act(ctx):
        calls.append(ctx)
        try:
            finish(h, how)
        except BaseException as e:
            errors.append(e)
            raise
        return message(h, "response")
    if mode == "async":
        async def fn(request, ctx):
            return act(ctx)
    else:
        def fn(request, ctx):
            return act(ctx)
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], interceptors=[m])
    if proto == "connect" and kind == "unary":
        x = serve(h, mode, app, headers=[("content-type", "application/proto")], body=[b"m"])
        ok = x.status == 200
    else:
        x = serve(h, mode, app, headers=[("content-type", CT[proto])], body=[frame(h, 0, b"m")])
        ok = h.test(h.eq(outcome_code(h, proto, x), None if proto == "connect" else "0"))
    judge(h, "C14.server", m, calls, errors[0] if errors else None)
    h.check("C14.server: the call ends as the rest of it, or as the interceptor fails", ok == (how == "done" and m.start == m.end == "ok"))


@target("C14", "client_stream", split={"mode": 2, "protocol": 3, "kind": 2}, reentry=True)
def client_stream(h):
    """A metadata interceptor around a call with any number of response messages."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", STREAM_RES)
    if proto == "grpc":
        frames = Frames(h, {"whole": b"", "cut": b"", "fault": b""}, proto=proto)
        status = h.choice("status", ["0", "10"])
        trailers = [("grpc-status", status)]
    else:
        status = "0"
        bad = frame(h, 2, b'{"error": {"code": "aborted"}}') if proto == "connect" else frame(h, 128, b"grpc-status: 10\r\n")
        frames = Frames(h, {"success": success(h, proto), "error": bad, "cut": b"", "fault": b""}, proto=proto)
        trailers = []
    wire = Wire(h, mode, {"headers": [("content-type", CT[proto])], "chunks": frames, "trailers": trailers})

    def note(what):
        if what == "start":
            h.check("C14.client: the start comes before the rest of the call", not wire.requests)
        else:
            h.check("C14.client: the end comes after the rest of the call", frames.state is not None)
    m = metadata(h, mode, note)
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h), interceptors=[m])
    got = Count()

    def on(x):
        got.add()
        h.check("C14.client: the messages of the wire pass", h.eq(x, decoded(h, frames.last)))
    request = message(h, "request")
    if kind == "bidi_stream":
        async def gen():
            yield request
        req = gen() if mode == "async" else iter([request])
    else:
        req = request

    def run():
        r = h.call(getattr(cl, "execute_" + kind), request=req, method=method(kind))
        if mode == "async":
            h.drive(h.aconsume(r, on))
        else:
            h.consume(r, on)
    k, e = h.outcome(run)
    good = frames.state == "success" or frames.state == "whole" and status == "0"
    judge(h, "C14.client", m, wire.requests, (e if m.end == "ok" else m.error) if not good else None)
    if m.start == "raises":
        h.check("C14.client: an error of start is the call's", k == "exc" and e is m.start_error)
    elif m.end == "raises":
        h.check("C14.client: an error of end is the call's", k == "exc" and e is m.end_error)
        h.check("C14.client: the error of a call that failed was given", good or m.error is not None)
    else:
        h.check("C14.client: the call ends as the rest of it", (k == "ok") == good)
        if good:
            h.check("C14.client: every message passes", h.eq(got.n, frames.n))


class Count(Ghost):
    _terms = ("n",)

    def __init__(self):
        self.n = 0

    def add(self):
        self.n = self.n + 1 if not is_sym(self.n) else SymInt(V.simp(self.n.e + 1))


# ------------------------------------------------------------------ stacks of interceptors
class Box:
    """A message: its bytes."""

    def __init__(self, b):
        self.b = b


class Boxes:
    """The codec of boxes."""

    def name(self):
        return "proto"

    def encode(self, m):
        return m.b

    def decode(self, data, cls):
        return Box(data)


def failure(m):
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    return ConnectError(Code.ABORTED, m)


def message_of(e):
    from connectrpc.errors import ConnectError

    return None if e is None else e.message if isinstance(e, ConnectError) else "not an RPC error"


class Stack(Ghost):
    """Interceptors, the history they should see, and the one they saw."""

    def __init__(self, h, kind, streaming_req, streaming_res):
        self.h, self.kind, self.sreq, self.sres = h, kind, streaming_req, streaming_res
        self.log = []

    def tag(self, i, m):
        return Box(self.h.cat(b"%d<" % i, m.b))

    def mark(self, i, m):
        return Box(self.h.cat(m.b, b">%d" % i))

    def note(self, *x):
        self.log.append(x)


BEHAVIOURS = ["pass", "request", "response", "before", "after", "skip", "catch"]
METHODS = {"unary": "intercept_unary", "client_stream": "intercept_client_stream", "server_stream": "intercept_server_stream", "bidi_stream": "intercept_bidi_stream"}


def interceptor(st, mode, i, kinds, beh):
    """An interceptor of some kinds."""
    def enter():
        st.note("in", i)
        if beh == "before":
            raise failure("before%d" % i)

    def leave():
        if beh == "after":
            raise failure("after%d" % i)
        st.note("out", i)

    def caught(e):
        if beh != "catch":
            raise e
        st.note("caught", i, message_of(e))
        return Box(b"caught%d" % i)

    def single(stream):
        if mode == "async":
            async def tags(it):
                async for m in it:
                    yield st.tag(i, m)

            async def f(self, call_next, request, ctx):
                enter()
                if beh == "skip":
                    leave()
                    return Box(b"skip%d" % i)
                if beh == "request":
                    request = tags(request) if stream else st.tag(i, request)
                try:
                    r = await call_next(request, ctx)
                except Exception as e:
                    r = caught(e)
                if beh == "response":
                    r = st.mark(i, r)
                leave()
                return r
            return f

        def tags_sync(it):
            for m in it:
                yield st.tag(i, m)

        def g(self, call_next, request, ctx):
            enter()
            if beh == "skip":
                leave()
                return Box(b"skip%d" % i)
            if beh == "request":
                request = tags_sync(request) if stream else st.tag(i, request)
            try:
                r = call_next(request, ctx)
            except Exception as e:
                r = caught(e)
            if beh == "response":
                r = st.mark(i, r)
            leave()
            return r
        return g

    def many(stream):
        if mode == "async":
            async def tags(it):
                async for m in it:
                    yield st.tag(i, m)

            async def f(self, call_next, request, ctx):
                enter()
                if beh == "skip":
                    yield Box(b"skip%d" % i)
                    leave()
                    return
                if beh == "request":
                    request = tags(request) if stream else st.tag(i, request)
                try:
                    async for r in call_next(request, ctx):
                        yield st.mark(i, r) if beh == "response" else r
                except Exception as e:
                    yield caught(e)
                leave()
            return f

        def tags_sync(it):
            for m in it:
                yield st.tag(i, m)

        def g(self, call_next, request, ctx):
            enter()
            if beh == "skip":
                yield Box(b"skip%d" % i)
                leave()
                return
            if beh == "request":
                request = tags_sync(request) if stream else st.tag(i, request)
            try:
                for r in call_next(request, ctx):
                    yield st.mark(i, r) if beh == "response" else r
            except Exception as e:
                yield caught(e)
            leave()
        return g

    class I:
        pass
    for k in kinds:
        stream = k in STREAM_REQ
        setattr(I, METHODS[k] + ("" if mode == "async" else "_sync"), many(stream) if k in STREAM_RES else single(stream))
    return I()


def observer(st, mode, i, beh):
    """A metadata interceptor."""
    token = object()

    def start(ctx):
        st.note("start", i)
        if beh == "start raises":
            raise failure("start%d" % i)
        return token

    def end(t, error):
        st.note("end", i, t is token, message_of(error))
        if beh == "end raises":
            raise failure("end%d" % i)

    if mode == "async":
        class A:
            async def on_start(self, ctx):
                return start(ctx)

            async def on_end(self, token, ctx, error):
                end(token, error)
        return A()

    class S:
        def on_start_sync(self, ctx):
            return start(ctx)

        def on_end_sync(self, token, ctx, error):
            end(token, error)
    return S()


def reference(st, stack, reqs, inner, log):
    """What a stack does: (the responses, the message of the error or None)."""
    if not stack:
        log.append(("inner", len(reqs)))
        return inner(reqs)
    (i, what, beh), rest = stack[0], stack[1:]
    if what == "metadata":
        log.append(("start", i))
        if beh == "start raises":
            return [], "start%d" % i
        out, err = reference(st, rest, reqs, inner, log)
        log.append(("end", i, True, err))
        return (out, "end%d" % i) if beh == "end raises" else (out, err)
    log.append(("in", i))
    if beh == "before":
        return [], "before%d" % i
    if beh == "skip":
        log.append(("out", i))
        return [Box(b"skip%d" % i)], None
    if beh == "request":
        reqs = [st.tag(i, m) for m in reqs]
    out, err = reference(st, rest, reqs, inner, log)
    if beh == "response":
        out = [st.mark(i, m) for m in out]
    if err is not None and beh == "catch":
        log.append(("caught", i, err))
        out, err = (out if st.sres else []) + [Box(b"caught%d" % i)], None
    if err is not None:
        return out, err
    if beh == "after":
        return out, "after%d" % i
    log.append(("out", i))
    return out, None


@target("C14", "stacks", split={"side": 2, "mode": 2, "kind": 4, "interceptors": 4}, bounded="at most three interceptors (two with every behaviour), two messages each way, two calls of one client and application")
def stacks(h):
    """Calls through a stack of interceptors, with messages of any content."""
    side = h.choice("side", ["server", "client"])
    mode = h.choice("mode", ["async", "sync"])
    kind = h.choice("kind", KINDS)
    n = h.choice("interceptors", [0, 1, 2, 3])
    st = Stack(h, kind, kind in STREAM_REQ, kind in STREAM_RES)
    stack, ints = [], []
    for i in range(n):
        what = h.choice("what", ["own", "all", "other", "metadata"] if n < 2 else ["own", "other", "metadata"])
        if what == "metadata":
            beh = h.choice("behaviour", ["ok", "start raises", "end raises"] if n < 3 else ["ok"])
            ints.append(observer(st, mode, i, beh))
            stack.append((i, what, beh))
        else:
            kinds = {"own": [kind], "all": KINDS, "other": [k for k in KINDS if k != kind]}[what]
            beh = h.choice("behaviour", BEHAVIOURS) if what == "own" and n < 3 else ["response", "request", "response"][i]
            ints.append(interceptor(st, mode, i, kinds, beh))
            if kind in kinds:
                stack.append((i, "kind", beh))
    fails = h.choice("the handler", ["answers", "fails"]) == "fails"
    reqs = [Box(h.bytes("request")) for _ in range(2 if st.sreq else 1)]
    res = [Box(h.bytes("response")) for _ in range(2 if st.sres else 1)]
    if h.symbolic:
        for b in reqs + res:
            V.fact(V.slen(V.bexpr(b.b)) < 2**31)
    seen = []

    def inner(rq):
        return (res if st.sres or not fails else []), ("handler" if fails else None)

    def handle(rq):
        seen.append(rq)
        st.note("inner", len(rq))

    def finish_():
        if fails:
            raise failure("handler")
    if mode == "async":
        if kind == "unary":
            async def fn(request, ctx):
                handle([request])
                finish_()
                return res[0]
        elif kind == "client_stream":
            async def fn(request, ctx):
                handle([m async for m in request])
                finish_()
                return res[0]
        elif kind == "server_stream":
            async def fn(request, ctx):
                handle([request])
                for m in res:
                    yield m
                finish_()
        else:
            async def fn(request, ctx):
                handle([m async for m in request])
                for m in res:
                    yield m
                finish_()
    else:
        if kind == "unary":
            def fn(request, ctx):
                handle([request])
                finish_()
                return res[0]
        elif kind == "client_stream":
            def fn(request, ctx):
                handle([m for m in request])
                finish_()
                return res[0]
        elif kind == "server_stream":
            def fn(request, ctx):
                handle([request])
                yield from res
                finish_()
        else:
            def fn(request, ctx):
                handle([m for m in request])
                yield from res
                finish_()
    given = h.choice("given as", ["list", "iterator"]) if n == 1 else "list" if n < 3 else "iterator"
    ints = iter(ints) if given == "iterator" else h.list(*ints)
    # (the server consumes them once, at its construction, whatever calls come)
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], codecs=[Boxes()], **({"interceptors": ints} if side == "server" else {}))
    wire = Wire(h, mode, linked(h, mode, app))
    proto = h.choice("protocol", ["connect", "grpc"] if n < 2 else ["connect"])
    cl = make_client(h, mode, proto, http_client=wire, codec=Boxes(), **({"interceptors": ints} if side == "client" else {}))
    for again in range(2 if n < 3 else 1):
        del st.log[:]
        del seen[:]
        k, e, got, _ = exchange(h, mode, proto, kind, None, request=reqs, cl=cl)
        log, passed = [], []

        def noted(rq):
            passed.append(rq)
            return inner(rq)
        out, err = reference(st, stack, reqs, noted, log)
        h.cover("a failure" if err else "a success")
        h.check("C14.stack: each sees the call once, in order", st.log == log)
        h.check("C14.stack: the call ends as the outermost interceptor says", (message_of(e) if k == "exc" else None) == err)
        h.check("C14.stack: the innermost call is the handler, with the request that was passed on", len(seen) == len(passed) and all(same(h, a, b) for a, b in zip(seen, passed)))
        if err is None or st.sres:
            h.check("C14.stack: the caller gets the responses of the outermost interceptor", same(h, got, out))


def same(h, a, b):
    return len(a) == len(b) and all(h.test(h.eq(x.b, y.b)) for x, y in zip(a, b))
