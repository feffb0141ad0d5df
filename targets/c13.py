"""C13: timeouts, through the public protocol objects, request contexts and clients."""
import time

from pyvc.harness import *
from targets.env import *
from targets.kit import *

UNITS = {"H": 3600000, "M": 60000, "S": 1000, "m": 1}
LIMIT = 10**8 * 3600000  # the largest time that eight digits and a unit can express


def remaining(h, ctx):
    """(remaining milliseconds, time that may have passed since the context was made, in ms)"""
    return h.call(getattr, ctx, "timeout_ms")


@target("C13", "send", replay=True)
def send(h):
    proto = h.choice("protocol", PROTOS)
    t = h.int("timeout", 1)
    ctx = client_context(h, proto, timeout_ms=t)
    v = h.call(ctx.request_headers.get, TIMEOUT_HEADER[proto])
    if proto == "connect":
        h.check("C13.send: a Connect timeout is sent in decimal milliseconds", h.eq(v, h.call(str, t)))
        return
    if h.test(t >= LIMIT):
        return  # not representable
    unit = h.pick("unit", v[-1], list(UNITS))
    n = h.call(int, v[:-1])
    h.check("C13.send: the number has at most 8 digits", h.and_(n >= 0, n < 10**8))
    h.check("C13.send: the number is in canonical decimal", h.eq(v[:-1], h.call(str, n)))
    h.check("C13.send: never more than the timeout", n * UNITS[unit] <= t)
    h.check("C13.send: less only by rounding to the unit", t - n * UNITS[unit] < UNITS[unit])


@target("C13", "parse", replay=True)
def parse(h):
    proto = h.choice("protocol", PROTOS)
    digits = h.digits("digits", 8 if proto != "connect" else 10)
    n = h.call(int, digits)
    if proto == "connect":
        text, exact, slack = digits, n, 0
    else:
        u = h.choice("unit", list(UNITS) + ["u", "n"])
        text = digits + u
        exact = n * UNITS[u] if u in UNITS else n / {"u": 1000, "n": 1000000}[u]
        slack = 0 if u in UNITS else 1
    before = h.call(time.monotonic)
    ctx = server_context(h, proto, [(TIMEOUT_HEADER[proto], text)])
    r = remaining(h, ctx)
    after = h.call(time.monotonic)
    if not h.check("C13.parse: a well-formed timeout is seen", h.not_(h.eq(r, None))):
        return
    # the remaining time is that of the header, less what has passed; floats are exact to 1 us here
    h.check("C13.parse: not more than the time the header denotes", r < exact + slack + (0 if h.symbolic else 0.01) if slack else r <= exact + (0 if h.symbolic else 0.01))
    h.check("C13.parse: not less than the time the header denotes, but for elapsed time", r >= exact - slack - (after - before) * 1000 - (0 if h.symbolic else 0.01))


@target("C13", "both_ends", replay=True)
def both_ends(h):
    proto = h.choice("protocol", PROTOS)
    t = h.int("timeout", 1, LIMIT - 1 if proto != "connect" else 10**10 - 1)
    c = client_context(h, proto, timeout_ms=t)
    before = h.call(time.monotonic)
    s = server_context(h, proto, h.call(list, h.call(c.request_headers.allitems)))
    r = remaining(h, s)
    after = h.call(time.monotonic)
    if not h.check("C13.both_ends: the handler sees a timeout", h.not_(h.eq(r, None))):
        return
    eps = 0 if h.symbolic else 0.01
    h.check("C13.both_ends: never more than the caller's timeout", r <= t + eps)
    if proto == "connect":
        unit = 0
    else:
        unit = 1 if h.test(t < 10**8) else 1000 if h.test(t < 10**11) else 60000 if h.test(t < 6 * 10**12) else 3600000
    h.check("C13.both_ends: less only by rounding and elapsed time", r + (after - before) * 1000 + unit + eps >= t)


@target("C13", "absent", replay=True)
def absent(h):
    proto = h.choice("protocol", PROTOS)
    c = client_context(h, proto, timeout_ms=None)
    h.check("C13.absent: no header is sent without a timeout", h.eq(h.call(c.request_headers.get, TIMEOUT_HEADER[proto]), None))
    h.check("C13.absent: no remaining time without a timeout", h.eq(remaining(h, c), None))
    s = server_context(h, proto, h.call(list, h.call(c.request_headers.allitems)))
    h.check("C13.absent: the handler sees none", h.eq(remaining(h, s), None))


@target("C13", "remaining", replay=True)
def remaining_decreases(h):
    """RequestContext.timeout_ms: what is left of the timeout at every moment."""
    from connectrpc.request import Headers, RequestContext

    t = h.int("timeout", 0)
    t0 = h.call(time.monotonic)
    ctx = h.new(RequestContext, method=method(), http_method="POST", request_headers=h.new(Headers), timeout_ms=t)
    t1 = h.call(time.monotonic)
    r = remaining(h, ctx)
    t2 = h.call(time.monotonic)
    eps = 0 if h.symbolic else 0.01
    h.check("C13.remaining: at most what is left", r <= t - 0 + eps)
    h.check("C13.remaining: exactly what is left", h.and_(r <= t - (0 if h.symbolic else 0) + eps, r >= t - (t2 - t0) * 1000 - eps))
    r2 = remaining(h, ctx)
    h.check("C13.remaining: it never grows", r2 <= r)


@target("C13", "precedence", replay=True)
def precedence(h):
    mode = h.choice("mode", ["sync", "async"])
    kind = h.choice("kind", KINDS)
    proto = h.choice("protocol", PROTOS)
    default = h.choice("default", [None, "given"])
    percall = h.choice("per_call", [None, "given"])
    d = h.int("default_ms", 1) if default else None
    p = h.int("per_call_ms", 1) if percall else None
    spy = Spy()
    cl = make_client(h, mode, proto, timeout_ms=d, interceptors=[spy])
    kw = dict(request=None, method=method(kind), timeout_ms=p)
    execute(h, cl, mode, kind, kw)
    h.check("C13.precedence: the call reaches the interceptor once", len(spy.seen) == 1)
    ctx = spy.seen[0]
    want = p if percall else d
    if want is None:
        h.check("C13.precedence: no timeout at all", h.and_(h.eq(remaining(h, ctx), None), h.eq(h.call(ctx.request_headers.get, TIMEOUT_HEADER[proto]), None)))
        return
    now = h.call(time.monotonic)
    c2 = client_context(h, proto, timeout_ms=want)
    h.check("C13.precedence: the per-call timeout, else the default, is sent", h.eq(h.call(ctx.request_headers.get, TIMEOUT_HEADER[proto]), h.call(c2.request_headers.get, TIMEOUT_HEADER[proto])))
    h.check("C13.precedence: and is the context's", remaining(h, ctx) <= want)
