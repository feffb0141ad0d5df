"""C20: generated clients and servers agree with the service definition."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.metadata
import inspect
import io
import keyword
import sys
import types

from oracle.core import case
from oracle.kit import *

from protobuf.wkt import (CodeGeneratorRequest, CodeGeneratorResponse, DescriptorProto, FileDescriptorProto,
                          MethodDescriptorProto, MethodOptions, ServiceDescriptorProto)
import protoc_gen_connectrpc as pgc


def generate(files, to_generate, parameter):
    req = CodeGeneratorRequest(file_to_generate=to_generate, parameter=parameter, proto_file=files)
    si, so, v, argv = sys.stdin, sys.stdout, importlib.metadata.version, sys.argv
    ob = io.BytesIO()
    sys.stdin = types.SimpleNamespace(buffer=io.BytesIO(req.to_binary()))
    sys.stdout = types.SimpleNamespace(buffer=ob, write=lambda s: None, flush=lambda: None)
    importlib.metadata.version = lambda n: "0.0.0"
    sys.argv = ["plugin"]
    try:
        pgc.main()
    finally:
        sys.stdin, sys.stdout, importlib.metadata.version, sys.argv = si, so, v, argv
    r = CodeGeneratorResponse.from_binary(ob.getvalue())
    return {f.name: f.content for f in r.file}, r.error


class Nest(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n not in cls.__dict__["kids"]:
            cls.kids[n] = stub(cls.mod, cls.path + (n,))
        return cls.kids[n]


def stub(mod, path):
    return Nest(path[-1], (M,), {"mod": mod, "path": path, "kids": {}, "__slots__": ()})


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        s = stub(self.__name__, (n,))
        setattr(self, n, s)
        return s


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves generated sources, stubs for the message modules, and packages, under a scratch root package."""

    def __init__(self, srcs, roots=()):
        self.srcs = srcs  # module name -> source
        self.pk = {"gen"}
        self.msgs = set(roots) | {"gen." + n for n in roots}  # the modules that protoc and protobuf-py make for the messages
        for n in roots:
            p = n.split(".")
            for i in range(1, len(p)):
                self.pk |= {".".join(p[:i]), "gen." + ".".join(p[:i])}
        for n in list(srcs):
            p = n.split(".")
            self.pk |= {".".join(p[:i]) for i in range(1, len(p))}
        self.made = set()

    def find_spec(self, name, path=None, target=None):
        if name in self.srcs or name in self.msgs:
            return importlib.machinery.ModuleSpec(name, self)
        if name in self.pk:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        self.made.add(spec.name)
        if spec.name in self.srcs or spec.name in self.pk:
            return None
        return StubModule(spec.name)

    def exec_module(self, m):
        if m.__name__ in self.srcs:
            exec(compile(self.srcs[m.__name__], m.__name__, "exec"), m.__dict__)


def msg_module(name, pb):
    stem = name.removesuffix(".proto").replace("-", "_")
    if pb == "protobuf=google":
        return stem.replace("/", ".") + "_pb2"
    return stem.replace(".", "_").replace("/", ".") + "_pb"


LEVELS = {MethodOptions.IdempotencyLevel.IDEMPOTENCY_UNKNOWN: IdempotencyLevel.UNKNOWN,
          MethodOptions.IdempotencyLevel.NO_SIDE_EFFECTS: IdempotencyLevel.NO_SIDE_EFFECTS,
          MethodOptions.IdempotencyLevel.IDEMPOTENT: IdempotencyLevel.IDEMPOTENT}
METHODS = ["Say", "GetHTTPHeader", "getThing", "get_thing_v2", "A", "x", "ABC", "V1Beta", "Import", "Class", "Print", "Yield", "DoIt2", "HTTP", "List", "MakeHat", "async", "None",
           "Match", "Type", "Is", "Get_All", "IPv6Lookup", "Global", "Await", "Request", "Headers", "Ctx", "Svc", "Service", "Z9", "In", "From", "ABTest", "X_y_Z"]
SERVICES = ["Greeter", "eliza", "HTTPService", "S", "A1", "None", "Echo_Service", "True", "Lambda", "return", "V2"]
MSGS = ["Req", "Res", "req_lower", "Outer", "M1", "Empty2", "Request", "Response"]
PKGS = ["", "a", "a.b", "acme.foo.v1", "x_y.Z"]


def fields(o, pkg, path, msgs, services, deps=()):
    return FileDescriptorProto(name=path, package=pkg, syntax="proto3", message_type=msgs, service=services, dependency=list(deps))


def spec_file(o, i, other=None):
    """A random file: (FileDescriptorProto, [(service, [(name, in, out, kind, level)])]) with in/out = (file, path)."""
    pkg = o.rnd.choice(PKGS)
    path = o.rnd.choice(["", pkg.replace(".", "/") + "/" if pkg else "dir/", "my-api/v1-beta/"]) + o.rnd.choice(["file", "my-file", "f1", "some.dotted"]) + f"{i}.proto"
    tag = "B" if other and other[4] == pkg else ""  # full names are unique
    names = [n + tag for n in o.rnd.sample(MSGS, o.rnd.randrange(1, 5))]
    nested = [n for n in names if o.rnd.random() < .4]
    msgs = [DescriptorProto(name=n, nested_type=[DescriptorProto(name="Inner", nested_type=[DescriptorProto(name="Deep")])] if n in nested else []) for n in names]
    pool = [(path, (n,)) for n in names] + [(path, (n, "Inner")) for n in nested] + [(path, (n, "Inner", "Deep")) for n in nested]
    full = {(path, p): "." + ".".join(([pkg] if pkg else []) + list(p)) for _, p in pool}
    if other:
        pool += other[2]
        full.update(other[3])
    svcs, descs = [], []
    for sn in o.rnd.sample(SERVICES, o.rnd.randrange(0 if i else 1, 3)):
        ms, ds = [], []
        for mn in o.rnd.sample(METHODS, o.rnd.randrange(0, 8)):
            a, b = o.rnd.choice(pool), o.rnd.choice(pool)
            kind = o.rnd.choice(KINDS)
            lv = o.rnd.choice(list(LEVELS))
            opts = None if lv == MethodOptions.IdempotencyLevel.IDEMPOTENCY_UNKNOWN and o.rnd.random() < .7 else MethodOptions(idempotency_level=lv)
            kw = dict(name=mn, input_type=full[a], output_type=full[b], client_streaming=kind in ("client", "bidi"), server_streaming=kind in ("server", "bidi"))
            if opts is not None:
                kw["options"] = opts
            ms.append(MethodDescriptorProto(**kw))
            ds.append((mn, a, b, kind, LEVELS[lv]))
        sn += tag
        svcs.append(ServiceDescriptorProto(name=sn, method=ms))
        descs.append((sn, ds))
    fd = fields(o, pkg, path, msgs, svcs, [other[0].name] if other else [])
    return fd, descs, pool if not other else pool, full, pkg


def locals_of(cls):
    return [n for n, f in vars(cls).items() if inspect.isfunction(f) and not n.startswith("__") and n not in ("_no_init_or_replace_init",)]


def loose(name):
    return name.replace("_", "").lower()


def same_type(t, want, prefix):
    f, path = want
    stem = f.removesuffix(".proto").split("/")[-1]
    return getattr(t, "path", None) == path and loose(stem.replace("-", "").replace(".", "")) in loose(t.mod.replace(".", ""))


class Spy:
    """Codec that shows the classes given to it."""

    def __init__(self):
        self.classes = []

    def name(self):
        return "raw"

    def encode(self, m):
        return m.b

    def decode(self, data, cls):
        self.classes.append(cls)
        return cls(bytes(data))


class Seen:
    def __init__(self):
        self.got = []

    async def intercept_unary(self, nxt, r, ctx):
        self.got.append(("unary", ctx.method, ctx.http_method))
        return await nxt(r, ctx)

    async def intercept_client_stream(self, nxt, r, ctx):
        self.got.append(("client", ctx.method, ctx.http_method))
        return await nxt(r, ctx)

    def intercept_server_stream(self, nxt, r, ctx):
        self.got.append(("server", ctx.method, ctx.http_method))
        return nxt(r, ctx)

    def intercept_bidi_stream(self, nxt, r, ctx):
        self.got.append(("bidi", ctx.method, ctx.http_method))
        return nxt(r, ctx)

    def intercept_unary_sync(self, nxt, r, ctx):
        self.got.append(("unary", ctx.method, ctx.http_method))
        return nxt(r, ctx)

    def intercept_client_stream_sync(self, nxt, r, ctx):
        self.got.append(("client", ctx.method, ctx.http_method))
        return nxt(r, ctx)

    intercept_server_stream_sync = intercept_server_stream
    intercept_bidi_stream_sync = intercept_bidi_stream


def impl(proto_cls, names, ds, sync, called):
    ns = {}
    for n, (mn, a, b, kind, lv) in zip(names, ds):
        def mk(n=n, kind=kind):
            out = lambda ctx: ctx.method.output(b"res")
            if sync:
                def one(self, r, ctx):
                    called.append((n, kind, r))
                    if kind == "client":
                        r = list(r)
                    return out(ctx)

                def many(self, r, ctx):
                    called.append((n, kind, r))
                    if kind == "bidi":
                        r = list(r)
                    yield out(ctx)
            else:
                async def one(self, r, ctx):
                    called.append((n, kind, r))
                    if kind == "client":
                        r = [x async for x in r]
                    return out(ctx)

                async def many(self, r, ctx):
                    called.append((n, kind, r))
                    if kind == "bidi":
                        r = [x async for x in r]
                    yield out(ctx)
            return one if kind in ("unary", "client") else many
        ns[n] = mk()
    return type("Impl", (proto_cls,), ns)()


@case("C20", bound="random definitions (1-2 files, 0-2 services, 0-7 methods of all kinds and levels, nested and imported messages, keyword and mixed-case names) x every combination of generator options; the generated code is run")
async def generated(o):
    combos = [(pb, i) for pb in ("", "protobuf=py", "protobuf=google") for i in ("", "io=sync", "io=async")]
    for rep in o.times(30, 250):
        one = spec_file(o, 0)
        two = spec_file(o, 1, one)
        allf = [one, two]
        for pb, i in combos:
            par = ",".join(x for x in (pb, i) if x)
            srcs, err = generate([one[0], two[0]], [one[0].name, two[0].name], par)
            d0 = dict(options=par, files=[(f[0].name, f[4], f[1]) for f in allf])
            if not o.check("generation succeeds", not err, err=err, **d0):
                continue
            mods = {}
            for n, c in srcs.items():
                try:
                    ast.parse(c)
                except SyntaxError as e:
                    o.check("the generated code is valid Python", False, err=e, source=c, **d0)
                mods["gen." + n.removesuffix(".py").replace("/", ".")] = c
            o.check("a file is generated exactly for files with services", len(srcs) == sum(1 for f in allf if f[1]), names=list(srcs), **d0)
            fi = Finder(mods, [msg_module(f[0].name, pb) for f in allf])
            sys.meta_path.insert(0, fi)
            try:
                loaded = []
                for n in mods:
                    try:
                        loaded.append(importlib.import_module(n))
                    except Exception as e:
                        o.check("the generated module can be imported", False, err=repr(e), source=mods[n], **d0)
                for f in [f for f in allf if f[1]]:
                    for sn, ds in f[1]:
                        full = (f[4] + "." if f[4] else "") + sn
                        for sync in (False, True):
                            await service(o, loaded, f, sn, ds, full, sync, i, d0)
            finally:
                sys.meta_path.remove(fi)
                for n in fi.made:
                    sys.modules.pop(n, None)


async def service(o, loaded, f, sn, ds, full, sync, io_, d0):
    sfx = "Sync" if sync else ""
    has = io_ == "" or io_ == ("io=sync" if sync else "io=async")
    esc = [sn, sn + "_"]
    stem = loose(f[0].name.removesuffix(".proto").split("/")[-1].replace("-", "").replace(".", ""))
    cands = [m for m in loaded if stem in loose(m.__name__)]
    d = dict(service=full, sync=sync, **d0)
    find = lambda tail: [getattr(m, e + tail) for m in cands for e in (sn, sn + "_") if hasattr(m, e + tail)]
    P_, App, Cl = find(sfx) if sfx else find(""), find("WSGIApplication" if sync else "ASGIApplication"), find("Client" + sfx)
    if not has:
        o.check("only the requested code is generated", not App and not Cl, **d)
        return
    if not o.check("protocol class, application and client exist", P_ and App and Cl, **d):
        return
    P_, App, Cl = P_[0], App[0], Cl[0]
    names = locals_of(P_)
    loc = len(names) == len(ds)
    if not loc:
        # two methods with one local name are excluded by the property
        if len({loose(x[0]) for x in ds}) == len(ds):
            o.check("one local method per method", False, names=names, **d)
        return
    base = dir(ConnectClientSync if sync else ConnectClient)
    called, spy, seen = [], Spy(), Seen()
    svc = impl(P_, names, ds, sync, called)
    a = App(svc, interceptors=[seen], codecs=[spy])
    o.check("the application's path is the service", a.path == "/" + full, path=a.path, **d)
    drive = (raw_wsgi if sync else None)
    for n, (mn, ti, to, kind, lv) in zip(names, ds):
        dm = dict(method=mn, local=n, kind=kind, level=lv, **d)
        o.check("local names are identifiers that spell the method", n.isidentifier() and not keyword.iskeyword(n) and loose(n) == loose(mn), **dm)
        del called[:], seen.got[:], spy.classes[:]
        un = kind == "unary"
        kw = dict(path=f"/{full}/{mn}", headers=[("content-type", ctype(P.CONNECT, kind))], chunks=[b"req" if un else frame(b"req")])
        r = raw_wsgi(a, **kw) if sync else await raw_asgi(a, **kw)
        v = verdict(r, P.CONNECT, kind)
        o.check("the server serves the method at its path", v.ok and [m[1] for m in v.msgs] == [b"res"] and [(c[0], c[1]) for c in called] == [(n, kind)], r=r, called=called, **dm)
        mi = seen.got[0][1] if seen.got else None
        o.check("with the definition's kind, name, types and level", mi is not None and seen.got[0][0] == kind and mi.name == mn and mi.service_name == full and mi.idempotency_level == lv
                and same_type(mi.input, ti, None) and same_type(mi.output, to, None) and spy.classes == [mi.input], mi=mi, mods=mi and (mi.input.mod, mi.input.path, ti, mi.output.mod, mi.output.path, to, spy.classes), **dm)
        get = un and lv == IdempotencyLevel.NO_SIDE_EFFECTS
        if n in base:
            continue
        cseen, cspy = Seen(), Spy()
        http = (SLoop if sync else ALoop)(to_wsgi(a) if sync else to_asgi(a))
        cl = Cl("http://h", codec=cspy, interceptors=[cseen], http_client=http, send_compression=None)
        meth = getattr(cl, n)
        ps = inspect.signature(meth).parameters
        o.check("a GET option exactly for unary methods free of side effects", ("use_get" in ps) == get, params=list(ps), **dm)
        o.check("the generated client's parameters", list(ps)[:3] == ["request", "headers", "timeout_ms"] and all(ps[k].kind == ps[k].KEYWORD_ONLY for k in list(ps)[1:]), params=list(ps), **dm)
        for g in ((False, True) if get else (False,)):
            del called[:], cseen.got[:], cspy.classes[:]
            req = mi.input(b"req")

            async def agen():
                yield req
            arg = req if kind in ("unary", "server") else (iter([req]) if sync else agen())
            ckw = dict(headers={"x-a": "1"}, timeout_ms=54321)
            if g:
                ckw["use_get"] = True
            try:
                x = meth(arg, **ckw)
                if kind in ("unary", "client"):
                    out = [x if sync else await x]
                else:
                    out = list(x) if sync else [y async for y in x]
            except Exception as e:
                o.check("the client call succeeds", False, err=repr(e), **dm)
                continue
            q = http.requests[-1]
            o.check("the client calls the same method", [y.b for y in out] == [b"res"] and [(c[0], c[1]) for c in called] == [(n, kind)] and q.url.split("?")[0] == f"http://h/{full}/{mn}", q=q, called=called, **dm)
            cm = cseen.got[0]
            o.check("with the same method information", cm[0] == kind and (cm[1].name, cm[1].service_name, cm[1].input, cm[1].output, cm[1].idempotency_level) == (mn, full, mi.input, mi.output, lv) and cm[2] == ("GET" if g else "POST")
                    and q.method == ("GET" if g else "POST"), cm=cm, **dm)
            o.check("passing headers and timeout", q.header("x-a") == ["1"] and q.header("connect-timeout-ms") == ["54321"], q=q, **dm)
    for n in names[:1]:
        # an unimplemented service says so
        a2 = App(P_.__new__(type("E", (P_,), {})), codecs=[Spy()])
        mn, ti, to, kind, lv = ds[0]
        un = kind == "unary"
        kw = dict(path=f"/{full}/{mn}", headers=[("content-type", ctype(P.CONNECT, kind))], chunks=[b"req" if un else frame(b"req")])
        r = raw_wsgi(a2, **kw) if sync else await raw_asgi(a2, **kw)
        v = verdict(r, P.CONNECT, kind)
        o.check("a method that is not implemented fails as unimplemented", v.ok is False and v.code == Code.UNIMPLEMENTED, r=r, method=mn, **d)
