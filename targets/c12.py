"""C12: the compression used is the one announced and accepted."""
from pyvc.harness import *
from targets.world import *

ENC = {"connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpc-web": "grpc-encoding", "unary": "content-encoding"}
ACC = {"connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc-web": "grpc-accept-encoding", "unary": "accept-encoding"}
SETS = [(), ("gzip",), ("br", "gzip")]


def packed_by(name, b):
    """What the named compression makes of b."""
    return b if name in (None, "identity") else SymBytes(uf(f"compress_{name}", V.S, V.S)(V.bexpr(b)))


def unpacked_by(name, b):
    return b if name in (None, "identity") else SymBytes(uf(f"decompress_{name}", V.S, V.S)(V.bexpr(b)))


def comps(h, names, may_fail=True):
    return [compression(h, n, may_fail) for n in names]


class AcceptList(Ghost):
    """The entries of an accept list of any length, and which supported one came first."""

    _pv_env_iter = True
    _terms = ()

    def __init__(self, h, supported):
        self.h, self.supported = h, supported
        self.first = None

    def __iter__(self):
        return self

    def __next__(self):
        h = self.h
        opts = ["end", "other"] + list(self.supported)
        k = opts[h.ex.choice(len(opts), "accepts")]
        if k == "end":
            raise StopIteration
        if k == "other":
            # neither a supported name nor one within blanks
            t = h.lower_str("entry", ",")
            for n in self.supported:
                V.fact(t.e != V.sval(n))
            name = t
        else:
            name = k
            if self.first is None:
                self.first = k
        pad = h.ex.choice(3, "blanks")
        return name if pad == 0 else h.call("".join, [" ", name] if pad == 1 else ["\t", name, " "])


def accept_list(h, supported):
    t = h.str("accept_list")
    a = AcceptList(h, tuple(supported) + ("identity",))
    h.ex.data.setdefault("splits", {})[(t.e.decl().name(), ",")] = lambda: a
    return t, a


class Packing(Monitor):
    """Sees that every message is marked as compressed iff it is, with what is announced."""

    def __init__(self, h, proto, alist, sent):
        super().__init__(h, "C12.respond", proto)
        self.alist, self.sent = alist, sent

    def chosen(self):
        f = self.alist.first
        return None if f == "identity" else f

    def headers(self, hs):
        h = self.h
        c = self.chosen()
        v = [v for k, v in hs if h.test(h.eq(k, ENC[self.proto]))]
        if c:
            h.cover("compressed")
            h.check("C12.respond: the compression is announced", len(v) == 1 and h.test(h.eq(v[0], c)))
        else:
            h.cover("not compressed")
            h.check("C12.respond: no compression is announced", not v or len(v) == 1 and h.test(h.eq(v[0], "identity")))

    def piece(self, b):
        h = self.h
        if h.test(h.len(b) > 0):
            end = END.get(self.proto)
            flag = b[0]
            if end is None or not h.test(V.wrapb((V.iexp(flag) / end) % 2 == 1)):
                c = self.chosen()
                h.check("C12.respond: a message is marked as compressed iff a compression was accepted", h.eq(flag, 1 if c else 0))
                h.check("C12.respond: a message is compressed with the first accepted algorithm the server supports", h.eq(b[5:], packed_by(c, self.sent.e)))
        super().piece(b)


@target("C12", "respond", split={"mode": 2, "protocol": 3, "supported": 3}, reentry=True)
def respond(h):
    """Accept lists of any length, responses of any number of messages, every protocol."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    names = h.choice("supported", SETS)
    t, alist = accept_list(h, names)
    listed = h.choice("listed", [True, False])
    ends = ["done", "rpc_error"]
    out = Responses(h, ends)
    sent = Last(h)

    def fn(request, ctx):
        return Noted(out, sent)
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "server_stream", fn))], compressions=comps(h, names))
    mon = Packing(h, proto, alist, sent)
    hs = [("content-type", CT[proto])] + ([(ACC[proto], t)] if listed else [])
    body = [frame(h, 0, b"m")]

    async def receive():
        return h.dict([("type", "http.request"), ("body", body.pop(0) if body else b""), ("more_body", False)])
    k, e = serve_stream(h, mode, app, mon, hs, receive=receive, wsgi_input=WsgiInput(h, body))
    h.cover("answered")


class Last(Ghost):
    _terms = ("e",)

    def __init__(self, h):
        self.h = h
        self.e = b""


class Noted(Ghost):
    """Responses, noting each."""

    _terms = ()
    _pv_env_iter = True

    def __init__(self, out, sent):
        self.out, self.sent = out, sent

    def note(self, m):
        self.sent.e = SymBytes(encode_e(m))
        return m

    def __iter__(self):
        return self

    def __next__(self):
        return self.note(self.out.__next__())

    def __aiter__(self):
        return self

    async def __anext__(self):
        return self.note(await self.out.__anext__())

    def close(self):
        self.out.close()

    async def aclose(self):
        await self.out.aclose()


@target("C12", "respond_unary", split={"mode": 2}, reentry=True)
def respond_unary(h):
    """Connect unary responses, and the kinds of a single response."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", ["unary"] + PROTOS)
    kind = "client_stream" if proto == "connect" else "unary"
    names = h.choice("supported", SETS)
    t, alist = accept_list(h, names)
    listed = h.choice("listed", [True, False])
    verb = h.choice("http_method", ["POST", "GET"] if proto == "unary" else ["POST"])
    m = message(h, "response")
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, collecting(h, mode, kind, [], m), method(kind, "NO_SIDE_EFFECTS" if kind == "unary" else "UNKNOWN")))], compressions=comps(h, names))
    hs = ([("content-type", "application/proto" if proto == "unary" else CT[proto])] if verb == "POST" else []) + ([(ACC[proto], t)] if listed else [])
    x = serve(h, mode, app, http_method=verb, query="message=&encoding=proto" if verb == "GET" else "", headers=hs, body=[b"m" if proto == "unary" else frame(h, 0, b"m")])
    c = None if alist.first == "identity" else alist.first
    v = x.header(h, ENC[proto])
    h.check("C12.respond_unary: success", h.eq(x.status, 200))
    if c:
        h.cover("compressed")
        h.check("C12.respond_unary: the compression is announced", len(v) == 1 and h.test(h.eq(v[0], c)))
    else:
        h.check("C12.respond_unary: no compression is announced", not v or len(v) == 1 and h.test(h.eq(v[0], "identity")))
    want = packed_by(c, encoded(h, m))
    if proto == "unary":
        h.check("C12.respond_unary: the body is compressed with the first accepted algorithm the server supports", len(x.body) == 1 and h.test(h.eq(x.body[0], want)))
        return
    fs = [(f, p) for f, p in frames_of(h, x) if h.test(h.or_(h.eq(f, 0), h.eq(f, 1)))]
    h.check("C12.respond_unary: the message is compressed and marked so, or neither", len(fs) == 1 and h.test(h.and_(h.eq(fs[0][0], 1 if c else 0), h.eq(fs[0][1], want))))


def same_name(h, enc, names):
    """The supported compression a text names; None if it names none."""
    for n in names:
        if h.test(h.eq(enc, n)):
            return n
    return None


@target("C12", "receive_unary", split={"mode": 2, "http_method": 2})
def receive_unary(h):
    """Any announced encoding, any body."""
    mode = h.choice("mode", ["async", "sync"])
    verb = h.choice("http_method", ["POST", "GET"])
    names = h.choice("supported", SETS)
    announced = h.choice("announced", [True, False])
    decodes = []
    h.ex.data["on_decode"] = decodes.append
    body = h.bytes("body")
    calls = []
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, "unary", collecting(h, mode, "unary", calls), method("unary", "NO_SIDE_EFFECTS")))], compressions=comps(h, names))
    if verb == "POST":
        enc, low = h.cased("encoding", ",")
        x = serve(h, mode, app, headers=[("content-type", "application/proto")] + ([("content-encoding", enc)] if announced else []), body=[body])
    else:
        import base64
        import urllib.parse

        enc = low = h.str("encoding")
        q = h.call(urllib.parse.urlencode, h.dict([("message", h.call(h.call(base64.urlsafe_b64encode, body).decode)), ("encoding", "proto"), ("base64", "1")] + ([("compression", enc)] if announced else [])))
        x = serve(h, mode, app, http_method="GET", query=q)
    n = same_name(h, low, ("identity",) + tuple(names)) if announced else "identity"
    if n is None:
        h.cover("unsupported")
        h.check("C12.receive_unary: an unsupported encoding is an RPC error", x.status != 200 and not calls)
        h.check("C12.receive_unary: its bytes are not given to the codec", not decodes)
        return
    if n != "identity" and h.test(h.len(body) > 0):
        if not h.test(V.wrapb(uf(f"is_{n}", V.S, V.B)(V.bexpr(body)))):
            h.cover("not compressed data")
            h.check("C12.receive_unary: what cannot be decompressed is an RPC error", x.status != 200 and not calls and not decodes)
            return
        want = unpacked_by(n, body)
    else:
        want = body
    h.cover("accepted")
    h.check("C12.receive_unary: the codec gets the decompressed body", len(decodes) == 1 and h.test(V.wrapb(decodes[0] == V.bexpr(want))))
    h.check("C12.receive_unary: and the RPC succeeds", x.status == 200 and len(calls) == 1)


def announced(h, names):
    """Any announced encoding, and the supported compression it names."""
    enc = h.choice("encoding", [None, "any", "identity", *names])
    if enc == "any":
        enc = h.str("encoding")
        for n in ("identity", *names):
            h.assume(h.not_(h.eq(enc, n)))
        return enc, None
    return enc, enc if enc in names else None


class Decodes(Ghost):
    _terms = ()

    def __init__(self, h, prop, frames, algorithm):
        self.h, self.prop, self.frames, self.algorithm = h, prop, frames, algorithm

    def __call__(self, d):
        h, f = self.h, self.frames
        if f.marked:
            h.check(f"{self.prop}: a marked message needs an announced, supported algorithm", self.algorithm is not None)
            h.check(f"{self.prop}: the codec gets a marked message decompressed", V.wrapb(d == V.bexpr(unpacked_by(self.algorithm, f.last))))
        else:
            h.check(f"{self.prop}: the codec gets another message as it is", V.wrapb(d == V.bexpr(f.last)))


@target("C12", "receive", split={"mode": 2, "protocol": 3, "encoding": 5, "kind": 2}, reentry=True)
def receive(h):
    """Streams of any number of messages with any flags, any announced encoding."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    names = ("br", "gzip")
    kind = h.choice("kind", ["client_stream", "bidi_stream"])
    enc, n = announced(h, names)
    frames = Frames(h, {"whole": b""}, "any", proto=proto)
    frames.track_marks = n is None
    h.ex.data["on_decode"] = Decodes(h, "C12.receive", frames, n)
    seen = Over(h)

    def on(m):
        pass
    if mode == "async":
        async def read(request):
            await h.aconsume(request, on)
            seen.whole = True
        if kind == "client_stream":
            async def fn(request, ctx):
                await read(request)
                return message(h, "response")
        else:
            async def fn(request, ctx):
                await read(request)
                yield message(h, "response")
    else:
        def read(request):
            h.consume(request, on)
            seen.whole = True
        if kind == "client_stream":
            def fn(request, ctx):
                read(request)
                return message(h, "response")
        else:
            def fn(request, ctx):
                read(request)
                yield message(h, "response")
    app = make_app(h, mode, [("/p.S/M", endpoint(h, mode, kind, fn))], compressions=comps(h, names, False))
    hs = [("content-type", CT[proto])] + ([(ENC[proto], enc)] if enc is not None else [])
    mon = Monitor(h, "C12.receive", proto)
    serve_stream(h, mode, app, mon, hs, receive=frames.receive, wsgi_input=frames)
    if mon.success():
        h.cover("success")
        h.check("C12.receive: a marked message without an announced and supported algorithm is an RPC error", n is not None or not frames.any_marked)
    else:
        h.cover("error")
        plain = enc is None or n is not None or h.test(h.eq(enc, "identity"))
        h.check("C12.receive: messages that are not marked are accepted", not plain or frames.any_marked and n is None)


class Over(Ghost):
    _terms = ()

    def __init__(self, h):
        self.whole = False


@target("C12", "receive_client", split={"mode": 2, "protocol": 3, "encoding": 5}, reentry=True)
def receive_client(h):
    from connectrpc.errors import ConnectError

    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    names = ("br", "gzip")
    enc, n = announced(h, names)
    frames = Frames(h, {"success": success(h, proto)}, "any", proto=proto)
    frames.track_marks = n is None
    h.ex.data["on_decode"] = Decodes(h, "C12.receive_client", frames, n)
    wire = Wire(h, mode, {"headers": [("content-type", CT[proto])] + ([(ENC[proto], enc)] if enc is not None else []), "chunks": frames, "trailers": [("grpc-status", "0")] if proto == "grpc" else []})
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h), accept_compression=comps(h, names, False))

    def on(m):
        pass

    def run():
        r = h.call(cl.execute_server_stream, request=message(h, "request"), method=method("server_stream"))
        if mode == "async":
            h.drive(h.aconsume(r, on))
        else:
            h.consume(r, on)
    k, e = h.outcome(run)
    plain = enc is None or n is not None or h.test(h.or_(h.eq(enc, "identity"), h.eq(enc, "")))
    if k == "ok":
        h.cover("success")
        h.check("C12.receive_client: an encoding that is not supported is an error", plain)
        h.check("C12.receive_client: a marked message without an announced and supported algorithm is an error", n is not None or not frames.any_marked)
    else:
        h.check("C12.receive_client: errors are of the library's type", isinstance(e, ConnectError))
        h.check("C12.receive_client: messages that are not marked are accepted", not plain or frames.any_marked and n is None)


class Requests(Ghost):
    """Requests of any number."""

    _terms = ()
    _pv_env_iter = True

    def __init__(self, h, sent):
        self.h, self.sent = h, sent

    def step(self):
        if self.h.ex.choice(2, "sends") == 1:
            return None
        m = self.h.msg("request")
        self.sent.e = SymBytes(encode_e(m))
        return m

    def __iter__(self):
        return self

    def __next__(self):
        m = self.step()
        if m is None:
            raise StopIteration
        return m

    def __aiter__(self):
        return self

    async def __anext__(self):
        m = self.step()
        if m is None:
            raise StopAsyncIteration
        return m


@target("C12", "send", split={"mode": 2, "protocol": 3, "kind": 4}, reentry=True)
def send(h):
    """What a client sends: any number of messages."""
    mode = h.choice("mode", ["async", "sync"])
    proto = h.choice("protocol", PROTOS)
    kind = h.choice("kind", KINDS)
    name = h.choice("compression", ["gzip", "br", None])
    comp = compression(h, name) if name else None
    how = "unary" if proto == "connect" and kind == "unary" else proto
    sent = Last(h)
    noted = []

    def on(b):
        h.check("C12.send: a message is marked as compressed iff it is, with the client's compression",
                h.and_(h.eq(b[0], 1 if name else 0), h.eq(b[5:], packed_by(name, sent.e)) if name else h.eq(b[5:], sent.e)))

    def reply(req):
        _, url, headers, content = req
        v = headers.get(ENC[how])
        noted.append(v)
        if name:
            h.check("C12.send: the compression is announced", h.eq(v, name))
        else:
            h.check("C12.send: no compression is announced", v is None or h.test(h.eq(v, "identity")))
        if how == "unary":
            h.check("C12.send: the body is compressed with it", h.eq(content, packed_by(name, sent.e)))
            return {"headers": [("content-type", "application/proto")], "body": b"r"}
        if mode == "async":
            h.drive(h.aconsume(content, on, "content"))
        else:
            h.consume(iter(content), on, "content")
        return {"headers": [("content-type", CT[proto])], "chunks": [frame(h, 0, b"r"), success(h, proto)] if proto != "grpc" else [frame(h, 0, b"r")], "trailers": [("grpc-status", "0")]}
    wire = Wire(h, mode, reply)
    cl = make_client(h, mode, proto, http_client=wire, codec=codec(h), send_compression=comp)
    if kind in ("unary", "server_stream"):
        req = message(h, "request")
        sent.e = SymBytes(encode_e(req))
    else:
        req = Requests(h, sent)
    k, e = h.outcome(lambda: execute(h, cl, mode, kind, {"request": req, "method": method(kind)}))
    h.check("C12.send: the call succeeds", k == "ok")
    h.check("C12.send: one request is sent", len(noted) == 1)


@target("C12", "resolve", replay=True)
def resolve(h):
    """Identity is always supported, and no algorithm is invented."""
    from connectrpc._compression import resolve_compressions

    names = h.choice("names", SETS)
    r = h.call(resolve_compressions, [compression(h, n) for n in names])
    h.check("C12.resolve: the given algorithms and identity", sorted(r) == sorted(set(names) | {"identity"}))
    b = h.bytes("data")
    h.check("C12.resolve: identity leaves bytes as they are", h.and_(h.eq(h.call(r["identity"].compress, b), b), h.eq(h.call(r["identity"].decompress, b), b)))


@target("C12", "gzip", replay=True)
def gzip_(h):
    """The wrapper hands the library's gzip the data, at every level."""
    from connectrpc.compression.gzip import GzipCompression

    c = h.new(GzipCompression, h.choice("level", [0, 6, 9]))
    b = h.bytes("data")
    h.check("C12.gzip: decompress undoes compress", h.eq(h.call(c.decompress, h.call(c.compress, b)), b))
    h.check("C12.gzip: its name", c.name() == "gzip")
