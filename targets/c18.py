"""C18: the ASGI lifespan."""
from pyvc.harness import *
from targets.world import *


class Start(Exception):
    pass


class Service_:
    def __init__(self, name):
        self.name = name


class World:
    """A service, its generator and an application."""

    def __init__(self, h, generator=True, start=None, stop=None):
        from connectrpc.server import ConnectASGIApplication

        self.h = h
        self.log = []
        self.calls = []
        self.resolved = []
        self.service = Service_("the service")
        log, service, calls, resolved = self.log, self.service, self.calls, self.resolved

        async def gen():
            log.append("started")
            if start == "no service":
                return
            if start is not None:
                raise start
            try:
                yield service
                log.append("resumed")
            finally:
                log.append("closing")
                if stop is not None:
                    raise stop
                log.append("closed")

        async def handle(request, ctx):
            calls.append(request)
            return message(h, "response")

        def endpoints(s):
            resolved.append(s)
            return h.dict([("/p.S/M", endpoint(h, "async", "unary", handle))])

        class App(ConnectASGIApplication):
            _pv_ok = True
            path = "/p.S"
        self.app = h.new(App, service=gen() if generator else service, endpoints=endpoints, codecs=[codec(h)], compressions=())

    def request(self, path="/p.S/M", method="POST", ct="application/proto"):
        n = len(self.calls)
        x = serve(self.h, "async", self.app, path=path, http_method=method, headers=[("content-type", ct)], body=[self.h.bytes("body")])
        return x, len(self.calls) - n

    def lifespan(self, messages, during=None):
        """What is sent, with the state of the generator then; and how the call ends."""
        h, sent, todo = self.h, [], list(messages)

        async def receive():
            if not todo:
                raise Start("no more messages")
            return h.dict([("type", todo.pop(0))])

        async def send(m):
            sent.append((m, list(self.log), len(todo)))
            if during is not None and m["type"] == "lifespan.startup.complete":
                during()
        k, e = h.outcome(self.app, h.dict([("type", "lifespan")]), receive, send)
        return sent, k, e, todo


UP, DOWN = "lifespan.startup", "lifespan.shutdown"


def exception(h, name):
    """Any exception that a generator may raise, with any message."""
    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    t = h.str(name)
    c = h.choice(name + " is", ["ValueError", "RuntimeError", "ConnectError", "OSError"])
    return (h.new(ConnectError, Code.ABORTED, t) if c == "ConnectError" else {"ValueError": ValueError, "RuntimeError": RuntimeError, "OSError": OSError}[c](t)), t


@target("C18", "served", replay=True, unroll=40)
def served(h):
    """Startup, requests, shutdown."""
    generator = h.choice("service", ["generator", "object"]) == "generator"
    stop, text_ = exception(h, "stop") if generator and h.choice("stop", ["closes", "fails"]) == "fails" else (None, None)
    n = h.choice("requests", [0, 1, 2])
    after = h.choice("messages after the shutdown", [[], [UP], [DOWN]])
    other = h.choice("other messages", [[], ["lifespan.unknown"]])
    w = World(h, generator, stop=stop)
    done = []

    def during():
        for _ in range(n):
            x, called = w.request()
            done.append((x.status, called, x.raised))
    sent, k, e, left = w.lifespan(other + [UP] + other + [DOWN] + after, during)
    h.check("C18: the lifespan call returns", k == "ok")
    h.check("C18: on the shutdown", left == after)
    h.check("C18: one answer to each message", len(sent) == 2)
    (a, alog, aleft), (b, blog, bleft) = sent
    h.check("C18: the startup is reported complete", a["type"] == "lifespan.startup.complete")
    h.check("C18: before the next message is asked for", aleft == len(other) + 1 + len(after))
    if generator:
        h.check("C18: the generator was advanced once before", alog == ["started"])
        h.check("C18: the generator was closed once before the shutdown is answered", blog == ["started", "closing"] + ([] if stop else ["closed"]))
    h.check("C18: its service is used", len(w.resolved) >= 1 and all(s is w.service for s in w.resolved))
    h.check("C18: requests are served", all(s == 200 and c == 1 and r is None for s, c, r in done) and len(done) == n)
    if stop is None:
        h.check("C18: the shutdown is reported complete", b["type"] == "lifespan.shutdown.complete")
    else:
        h.check("C18: a failed shutdown is reported", b["type"] == "lifespan.shutdown.failed")
        h.check("C18: with its message", h.eq(b["message"], text_))
    h.check("C18: nothing is done to the generator after that", w.log == (blog if generator else []))


@target("C18", "failed", replay=True, unroll=40)
def failed(h):
    """A startup that fails."""
    if h.choice("start", ["fails", "no service"]) == "fails":
        start, text_ = exception(h, "start")
    else:
        start, text_ = "no service", None
    w = World(h, start=start)
    after = h.choice("messages after", [[], [DOWN]])
    sent, k, e, left = w.lifespan([UP] + after)
    h.check("C18: the lifespan call returns", k == "ok")
    h.check("C18: one answer", len(sent) == 1 and left == after)
    h.check("C18: a failed startup is reported", sent[0][0]["type"] == "lifespan.startup.failed")
    if text_ is not None:
        h.check("C18: with its message", h.eq(sent[0][0]["message"], text_))
    h.check("C18: the generator was advanced once", w.log == ["started"])
    for _ in range(h.choice("requests", [1, 2])):
        x, called = w.request()
        h.check("C18: requests fail without a service", called == 0 and (x.raised is not None or x.status != 200))


@target("C18", "without", replay=True, unroll=40)
def without(h):
    """Requests to an application whose lifespan was not run."""
    generator = h.choice("service", ["generator", "object"]) == "generator"
    w = World(h, generator)
    shutdown = h.choice("a shutdown alone", [False, True])
    if shutdown:
        sent, k, e, left = w.lifespan([DOWN])
        h.check("C18: a shutdown alone is answered", k == "ok" and len(sent) == 1 and sent[0][0]["type"] == "lifespan.shutdown.complete")
    for _ in range(h.choice("requests", [1, 2])):
        if generator:
            x, called = w.request(h.str("path"), h.choice("method", ["POST", "GET"]), h.str("content_type"))
            h.check("C18: a generator service that was not started is not used", called == 0 and not w.resolved and w.log == [])
            h.check("C18: and the request fails", x.raised is not None or x.status != 200)
        else:
            x, called = w.request()
            h.check("C18: a plain service needs no lifespan", called == 1 and x.status == 200 and w.resolved[-1] is w.service)
