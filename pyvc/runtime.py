"""The runtime the instrumented code calls (`_pv_rt`)."""
from __future__ import annotations

import enum
import os
import functools
import inspect
import types

import z3

from . import core, values as V
from .core import PathEnd, Restart, Unsupported, ex, uf
from .values import (
    DView, MsgVal, Poison, PvByteArray, PvDict, S, Sym, SymBool, SymBytes, SymInt, SymReal,
    SymStr, deep_sym, is_sym,
)

SCOPE_PREFIX = ("connectrpc", "connectrpc_otel", "protoc_gen_connectrpc")
WHILE_UNROLL = 4
LIVE_UNROLL = 8


class _Unb:
    def __repr__(self):
        return "UNB"


class _Stop:
    def __repr__(self):
        return "STOP"


UNSET = _Unb()


class PvList(list):
    """A list display of the instrumented code."""

    __slots__ = ("__weakref__",)

    def _run(self):
        for x in list.__iter__(self):
            if isinstance(x, BytesRun):
                return True
        return False

    def __len__(self):
        if self._run():
            raise Unsupported("length of an abstracted list")
        return list.__len__(self)

    def __bool__(self):
        return list.__len__(self) > 0 if not self._run() else self.__len__()

    def __iter__(self):
        if self._run():
            raise Unsupported("iteration over an abstracted list")
        return list.__iter__(self)

    __hash__ = None


class BytesRun(Sym):
    """An unknown number of byte strings in a list, whose concatenation is e."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Ghost:
    """Base class of environment stubs and monitors: attribute writes are tracked so that
    loop cuts cover them."""

    _terms = ()
    _pv_ghost = True

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        if core.EX is not None and not core.EX.dead:
            rt.register(o)
            core.EX.ghosts.append(o)
        return o

    def __setattr__(self, n, v):
        if core.EX is not None:
            rt.track(self, n)
        object.__setattr__(self, n, v)


class Loop:
    __slots__ = ("locals", "lid", "kind", "it", "live", "cut", "arr", "key", "plan", "entry_serial",
                 "names", "entry", "havoc_time", "gen", "concrete", "inner", "prefix", "around", "env", "closed")


def in_scope(modname):
    return isinstance(modname, str) and modname.split(".")[0] in SCOPE_PREFIX


class Runtime:
    UNB = UNSET
    STOP = _Stop()

    def __init__(self):
        self.contracts = {}  # qualified name -> replacement callable
        self.models = {}  # id(callable) -> model
        self._model_keep = []
        self.methods = {}  # (type, name) -> model

    # -- registration -------------------------------------------------------
    def model(self, fn):
        def deco(m):
            self.models[id(fn)] = m
            self._model_keep.append(fn)
            return m

        return deco

    def method(self, typ, name):
        def deco(m):
            self.methods[(typ, name)] = m
            return m

        return deco

    def register(self, obj):
        e = core.EX
        if e is None or e.dead:
            return
        k = id(obj)
        if k in e.serial_of:
            return
        e.serial += 1
        e.serial_of[k] = e.serial
        e.registry[e.serial] = obj
        e.keep.append(obj)

    def track(self, obj, attr):
        e = core.EX
        if e is None:
            return
        if e.dead:
            raise PathEnd
        if not e.active:
            return
        s = e.serial_of.get(id(obj))
        if s is None and type(obj) in e.constructing:
            # its own constructor writes it: it is newer than every active loop
            self.register(obj)
            s = e.serial
        if s is None:
            raise Unsupported(
                f"write to an untracked object in a loop: {type(obj).__name__}.{attr}"
            )
        for L in e.active:
            if s <= L.entry_serial and (s, attr) not in L.plan.locs:
                if L.gen is not None and not any(g is L.gen for g in e.gen_stack):
                    continue
                L.plan.locs.append((s, attr))
                e.hints.setdefault(L.lid, {})[s, attr] = type(obj)
                if e.verbose:
                    print("  loop", L.lid, "writes", type(obj).__name__, attr, s)
                raise Restart(L.key)

    # -- function entry -------------------------------------------------------
    def enter(self, qual):
        e = core.EX
        if e is None:
            return
        if e.dead:
            raise PathEnd
        e.functions.add(qual)

    # -- calls ---------------------------------------------------------------
    def _qual(self, f):
        m = getattr(f, "__module__", None)
        q = getattr(f, "__qualname__", None)
        return f"{m}.{q}" if m and q else None

    def call(self, f, *a, **k):
        e = core.EX
        if e is None:
            return f(*a, **k)
        if e.dead:
            raise PathEnd
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(k)
            return self.call(f.func, *f.args, *a, **kw)
        if self.contracts:
            q = self._qual(f)
            c = self.contracts.get(q)
            if c is not None:
                e.assumed.add(q)
                s = getattr(f, "__self__", None)
                if s is not None and not isinstance(s, type):
                    return c(s, *a, **k)
                return c(*a, **k)
        m = self.models.get(id(f))
        if m is not None:
            return m(*a, **k)
        if is_sym(f):
            return f(*a, **k)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            mod = getattr(fn, "__module__", None)
            m = self.models.get(id(fn))
            if m is not None:
                return m(f.__self__, *a, **k)
            if in_scope(mod) or self._trusted_py(fn, mod) or isinstance(f.__self__, Ghost) or is_sym(f.__self__):
                return f(*a, **k)
        elif isinstance(f, type):
            mod = f.__module__
            if issubclass(f, enum.Enum) and len(a) == 1 and is_sym(a[0]):
                return self.enum_by_value(f, a[0])
            if in_scope(mod) or issubclass(f, Ghost) or getattr(f, "_pv_ok", False):
                e.constructing.append(f)
                try:
                    r = f(*a, **k)
                finally:
                    e.constructing.pop()
                if hasattr(type(r), "__dict__"):
                    self.register(r)
                return r
            if issubclass(f, BaseException):
                r = f(*a, **k)
                self.register(r)
                return r
        elif isinstance(f, (types.FunctionType,)):
            if in_scope(f.__module__) or self._trusted_py(f, f.__module__):
                return f(*a, **k)
        elif isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)):
            s = getattr(f, "__self__", None)
            if s is not None and not isinstance(s, types.ModuleType) and not isinstance(s, type):
                return self.mcall(s, f.__name__, *a, **k)
            if isinstance(s, type):
                m = self.type_mcall(s, f.__name__)
                if m is not None:
                    return m(s, *a, **k)
        elif isinstance(f, Ghost) or hasattr(type(f), "_pv_callable"):
            return f(*a, **k)
        elif callable(f) and (in_scope(type(f).__module__) or getattr(type(f), "_pv_ok", False)):
            return f(*a, **k)
        return self._native(f, a, k)

    # Mixin methods of collections.abc: Python code that only calls the class's own item methods.
    MIXINS = {"Mapping.get", "Mapping.__contains__", "Mapping.keys", "Mapping.items", "Mapping.values",
              "MutableMapping.pop", "MutableMapping.setdefault", "MutableMapping.update", "MutableMapping.clear"}

    def _trusted_py(self, f, mod):
        if mod == "collections.abc" and f.__qualname__ in self.MIXINS:
            return True
        return isinstance(mod, str) and (
            mod.startswith("targets") or mod.startswith("pyvc") or mod.startswith("harness") or mod == "__main__"
        )

    def _native(self, f, a, k):
        if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
            raise Unsupported(f"no model for {getattr(f, '__qualname__', f)!r} on symbolic arguments")
        r = f(*a, **k)
        t = type(r)
        if t in (dict, list) or isinstance(f, type):
            if t is dict:
                r = PvDict(r)
            if not isinstance(r, (str, bytes, int, float, tuple, type(None))):
                try:
                    self.register(r)
                except TypeError:
                    pass
        return r

    MUTATORS = {"append", "extend", "add", "clear", "pop", "remove", "insert", "update",
                "setdefault", "discard", "popitem", "reverse", "sort"}

    def mcall(self, obj, name, *a, **k):
        e = core.EX
        if e is None:
            return getattr(obj, name)(*a, **k)
        if e.dead:
            raise PathEnd
        if is_sym(obj):
            return getattr(obj, name)(*a, **k)
        t = type(obj)
        if t is PvDict or t is DView:
            return getattr(obj, name)(*a, **k)
        if isinstance(obj, type):
            m = self.type_mcall(obj, name)
            if m is not None:
                return m(obj, *a, **k)
        m = self.methods.get((t, name))
        if m is not None:
            r = m(obj, *a, **k)
            if r is not NotImplemented:
                return r
        if isinstance(obj, (list, set)) and name in self.MUTATORS:
            self.track(obj, "contents")
            if isinstance(obj, list) and name == "extend" and len(a) == 1:
                list.extend(obj, self.native_iter(a[0]))
                return None
            if name in ("append", "insert", "clear", "pop", "reverse", "add"):
                return getattr(obj, name)(*a, **k)
        if t in (str, bytes, list, tuple, dict, set, frozenset, int, float, bytearray) or isinstance(
            obj, (str, bytes, int, tuple, list)
        ):
            if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
                m = self.methods.get((str if isinstance(obj, str) else bytes if isinstance(obj, bytes) else
                                      list if isinstance(obj, list) else t, name + "!sym"))
                if m is not None:
                    return m(obj, *a, **k)
                raise Unsupported(f"no model for {t.__name__}.{name} with symbolic arguments")
            return getattr(obj, name)(*a, **k)
        f = self.getattr(obj, name)
        if t in (types.GeneratorType, types.AsyncGeneratorType):
            return self._native_ok(f, a, k)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)) and id(f) not in self.models:
            if name == "__init__" and isinstance(getattr(f, "__self__", None), BaseException):
                return f(*a, **k)
            if deep_sym(obj):
                raise Unsupported(f"no model for {t.__name__}.{name}")
            return self._native(f, a, k)
        return self.call(f, *a, **k)

    def _native_ok(self, f, a, k):
        return f(*a, **k)

    # -- attributes -------------------------------------------------------------
    def getattr(self, obj, name):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        return getattr(obj, name)

    def setattr(self, obj, name, v):
        e = core.EX
        if e is not None:
            if e.dead:
                raise PathEnd
            if not isinstance(obj, Ghost):
                self.track(obj, name)
            w = e.data.get("write_hook")
            if w is not None:
                w(obj, name, v)
        setattr(obj, name, v)

    def delattr(self, obj, name):
        self.track(obj, name)
        delattr(obj, name)

    def augattr(self, obj, name, op, v):
        self.setattr(obj, name, self.iop(op, self.getattr(obj, name), v))

    # -- subscripts ---------------------------------------------------------------
    def slice(self, a, b, c):
        return slice(a, b, c)

    def getitem(self, obj, key):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if is_sym(obj) or type(obj) is PvDict:
            return obj[key]
        if is_sym(key):
            if isinstance(obj, dict):
                for kk in list(obj.keys()):
                    if self.truth(self.eq(key, kk)):
                        return obj[kk]
                raise KeyError(key)
            if isinstance(obj, (list, tuple)) and isinstance(key, SymInt):
                n = len(obj)
                for i in range(n):
                    if key == i:
                        return obj[i]
                raise Unsupported("symbolic list index")
            if isinstance(obj, type) and issubclass(obj, enum.Enum):
                raise Unsupported("enum lookup by symbolic name")
            if in_scope(type(obj).__module__) or isinstance(obj, Ghost):
                return obj[key]
            raise Unsupported(f"{type(obj).__name__}[symbolic]")
        if isinstance(obj, (str, bytes)) and isinstance(key, slice):
            if any(is_sym(x) for x in (key.start, key.stop)):
                x = V.sexp(obj) if isinstance(obj, str) else V.bexpr(obj)
                return (V.mkstr if isinstance(obj, str) else V.mkbytes)(V.do_slice(x, key))
        return obj[key]

    def setitem(self, obj, key, v):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if type(obj) is PvDict or isinstance(obj, Ghost) or in_scope(type(obj).__module__) or is_sym(obj):
            w = e.data.get("write_hook") if e is not None else None
            if w is not None and type(obj) is PvDict:
                w(obj, "contents", v)
            obj[key] = v
            return
        self.track(obj, "contents")
        if deep_sym(key):
            raise Unsupported(f"{type(obj).__name__}[symbolic] = ...")
        w = e.data.get("write_hook") if e is not None else None
        if w is not None:
            w(obj, "contents", v)
        obj[key] = v

    def delitem(self, obj, key):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if not (type(obj) is PvDict or is_sym(obj) or in_scope(type(obj).__module__) or isinstance(obj, Ghost)):
            self.track(obj, "contents")
            if deep_sym(key):
                raise Unsupported("del with a symbolic key")
        del obj[key]

    def augitem(self, obj, key, op, v):
        self.setitem(obj, key, self.iop(op, self.getitem(obj, key), v))

    # -- operators --------------------------------------------------------------------
    def truth(self, x):
        if x is True or x is False:
            return x
        return bool(x)

    def contains(self, container, item):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if is_sym(container):
            return container.pv_contains(item)
        if isinstance(container, (str, bytes)):
            if is_sym(item):
                x = V.sexp(container) if isinstance(container, str) else V.bexpr(container)
                y = V.sexp(item) if isinstance(container, str) else V.bexpr(item)
                if y is None:
                    raise TypeError("in <text> requires text")
                return V.wrapb(z3.Contains(x, y))
            return item in container
        if isinstance(container, (list, tuple, DView)):
            if deep_sym(item) or deep_sym(container) or isinstance(container, DView):
                for x in container:
                    if x is item or self.truth(self.eq(x, item)):
                        return True
                return False
            return item in container
        if type(container) is PvDict:
            return item in container
        if isinstance(container, (dict, set, frozenset)) or type(container).__name__ in ("dict_keys",):
            if is_sym(item):
                for x in list(container):
                    if self.truth(self.eq(item, x)):
                        return True
                return False
            return item in container
        f = getattr(type(container), "__contains__", None)
        if f is not None and isinstance(f, types.FunctionType):
            return f(container, item)
        return item in container

    def not_(self, x):
        if isinstance(x, SymBool):
            return V.wrapb(z3.Not(x.e))
        return not x

    def eq(self, a, b):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if a is b:
            return True
        if is_sym(a) or is_sym(b):
            if not is_sym(a):
                a, b = b, a
            r = a.__eq__(b)
            if r is NotImplemented:
                r = b.__eq__(a) if is_sym(b) else False
                if r is NotImplemented:
                    return False
            return r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (deep_sym(a) or deep_sym(b)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        return a == b

    _OPS = {
        "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
        "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
        "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
    }

    def binop(self, op, a, b):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if isinstance(a, list) and isinstance(b, list) and op == "Add":
            r = PvList(a)
            list.extend(r, b)
            self.register(r)
            return r
        if op == "Mod" and isinstance(a, (str, bytes)) and deep_sym(b):
            raise Unsupported("% formatting")
        return self._OPS[op](a, b)

    def iop(self, op, x, v):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        if op == "Add" and isinstance(x, list):
            self.mcall(x, "extend", v)
            return x
        if op == "Add" and isinstance(x, PvByteArray):
            x.extend(v)
            return x
        if op in self._OPS:
            return self._OPS[op](x, v)
        if deep_sym(x) or deep_sym(v):
            raise Unsupported("augmented " + op)
        import operator

        return {"BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift,
                "Pow": operator.ipow, "MatMult": operator.imatmul}[op](x, v)

    def to_str(self, v, conversion=-1, spec=""):
        if conversion == ord("r"):
            if deep_sym(v):
                return V.mkstr(core.ex().fresh("repr", S))
            return repr(v)
        if is_sym(spec):
            raise Unsupported("symbolic format spec")
        if spec != "":
            if deep_sym(v):
                return V.mkstr(core.ex().fresh("formatted", S))
            return format(v, spec)
        if is_sym(v):
            return self.call(str, v)
        if isinstance(v, BaseException) and deep_sym(v):
            return self.call(str, v)
        if deep_sym(v):
            return V.mkstr(core.ex().fresh("str_of", S))
        return str(v) if conversion == ord("s") else format(v, spec)

    def fstr(self, *ps):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        out = []
        for p in ps:
            if type(p) is str:
                out.append(p)
            else:
                out.append(self.to_str(*p))
        if all(type(o) is str for o in out):
            return "".join(out)
        return V.mkstr(V.concat(*[V.sexp(o) for o in out]))

    # -- displays ------------------------------------------------------------------------
    def mkdict(self, *items):
        r = PvDict()
        self.register(r)
        for it in items:
            if it[0]:
                m = it[1]
                for kk in list(m.keys()):
                    r[kk] = m[kk]
            else:
                r[it[1]] = it[2]
        return r

    def mklist(self, lst):
        r = PvList(lst)
        self.register(r)
        return r

    def unpack(self, v, n):
        if is_sym(v):
            raise Unsupported("unpacking a symbolic value")
        if isinstance(v, SplitSeq):
            return v.unpack(n)
        return v

    def native_iter(self, it):
        """An iterable that native code may walk."""
        if is_sym(it) or isinstance(it, SplitSeq):
            raise Unsupported("native iteration over a symbolic sequence")
        return it

    # -- comprehensions ---------------------------------------------------------------
    def comp(self, lid, kind, it, elt, cond, unpack):
        if getattr(it, "_pv_seg", False):
            return it.pv_map(kind, elt, cond, unpack)
        if kind == "gen":
            return self._gen(lid, it, elt, cond, unpack)
        return self._comp_loop(lid, kind, it, elt, cond, unpack)

    def _gen(self, lid, it, elt, cond, unpack):
        L = self.loop(lid, "for", it, False)

        def g():
            while True:
                self.head(L, {}, ())
                x = self.next_(L)
                if x is self.STOP:
                    self.loop_done(L)
                    return
                if cond is None or (cond(*x) if unpack else cond(x)):
                    yield elt(*x) if unpack else elt(x)

        return g()

    def _add(self, kind, acc, v):
        if kind == "list":
            list.append(acc, v)
        elif kind == "dict":
            acc[v[0]] = v[1]
        else:
            if deep_sym(v):
                raise Unsupported("set of symbolic values")
            acc.add(v)

    def _comp_loop(self, lid, kind, it, elt, cond, unpack):
        acc = PvList() if kind == "list" else PvDict() if kind == "dict" else set()
        self.register(acc)
        L = self.loop(lid, "for", it, False)
        while True:
            self.head(L, {}, ())
            x = self.next_(L)
            if x is self.STOP:
                self.loop_done(L)
                return acc
            if cond is None or self.truth(cond(*x) if unpack else cond(x)):
                v = elt(*x) if unpack else elt(x)
                self.track(acc, "contents")
                self._add(kind, acc, v)

    async def acomp(self, lid, kind, it, elt, cond, unpack):
        acc = PvList() if kind == "list" else PvDict() if kind == "dict" else set()
        self.register(acc)
        L = self.loop(lid, "afor", it, False)
        while True:
            self.head(L, {}, ())
            x = await self.anext_(L)
            if x is self.STOP:
                self.loop_done(L)
                return acc
            if cond is None or self.truth(cond(*x) if unpack else cond(x)):
                v = elt(*x) if unpack else elt(x)
                self.track(acc, "contents")
                self._add(kind, acc, v)

    # -- loops ----------------------------------------------------------------------------
    def loop(self, lid, kind, iterable, bad):
        e = core.EX
        if e is not None and e.dead:
            raise PathEnd
        L = Loop()
        L.lid, L.kind, L.arr = lid, kind, 0
        L.live = L.cut = L.env = L.closed = False
        L.concrete = False
        L.inner = False
        L.prefix = 0
        L.around = set()
        L.it = None
        L.key = None
        L.havoc_time = 0
        if kind == "for":
            if isinstance(iterable, (SymInt, SymBool)):
                raise TypeError(f"{type(iterable).__name__} object is not iterable")
            if is_sym(iterable):
                raise Unsupported(f"loop over {type(iterable).__name__}")
            L.it = iter(iterable)
        elif kind == "afor":
            L.it = type(iterable).__aiter__(iterable)
        if e is None:
            return L
        if kind != "while":
            L.env = getattr(type(L.it), "_pv_env_iter", False)
            L.live = not L.env and isinstance(
                L.it, (types.GeneratorType, types.AsyncGeneratorType)
            )
            L.concrete = not L.env and not L.live
        L.cut = L.env or (lid in e.must_cut and not L.concrete)
        if L.cut and bad:
            raise Unsupported("loop with global/nonlocal")
        if L.cut:
            e.stats["loops"].add(lid)
        return L

    def head(self, L, loc, names):
        try:
            return self._head(L, loc, names)
        except Exception as x:
            # never to be caught by the code under test
            raise Unsupported(f"the engine failed: {type(x).__name__}: {x}") from x

    def _head(self, L, loc, names):
        e = core.EX
        L.arr += 1
        if e is None:
            return self._vals(loc, names)
        if e.dead:
            raise PathEnd
        if not L.cut:
            if e.vehicle is not None and not L.concrete and L.arr > 1:
                for C in e.next_stack:
                    if C.cut:
                        C.around.add(L.lid)
            if L.arr > (e.unroll or (WHILE_UNROLL if L.kind == "while" else LIVE_UNROLL)) and not L.concrete:
                e.must_cut.add(L.lid)
                raise Restart("ALL")
            return self._vals(loc, names)
        if L.live and e.reentry and L.arr == 2 and not L.inner and e.vehicle is None:
            # The generator has not reached a loop yet: its steps so far are taken exactly, and
            # the loop over it starts here.
            L.prefix += 1
            if L.prefix > 8:
                raise Unsupported("a long generator without a loop: " + L.lid)
            L.arr = 1
            for n in sorted(loc):
                self._walk(loc[n], 3)
            L.entry_serial = e.serial
            L.entry = self._state(L, loc)
            sh = self._shape(L, L.entry)
            if sh not in L.plan.shapes:
                L.plan.shapes.insert(0, sh)
            L.locals = {k: v for k, v in L.entry.items() if k[0] == "l"}
            return self._vals(loc, names)
        if L.arr == 1:
            for C in e.next_stack:
                C.inner = True
            for C in e.next_stack:
                if not C.cut and not C.concrete:
                    e.must_cut.add(C.lid)
                    raise Restart("ALL")
            for n in sorted(loc):
                self._walk(loc[n], 3)
            L.key = e.marker()
            L.plan = e.plans[L.key]
            L.entry_serial = e.serial
            if not L.plan.hinted:
                # what the same loop was seen to write elsewhere: more is havocked, never less
                L.plan.hinted = True
                for (s, attr), t in e.hints.get(L.lid, {}).items():
                    if s <= e.serial and type(e.registry.get(s)) is t and (s, attr) not in L.plan.locs:
                        L.plan.locs.append((s, attr))
            L.names = names
            L.gen = e.gen_stack[-1] if e.gen_stack else None
            L.entry = self._state(L, loc)
            e.active.append(L)
            if L.live and not e.reentry:
                return self._vals(loc, names)
            sh = self._shape(L, L.entry)
            if sh not in L.plan.shapes:
                L.plan.shapes.insert(0, sh)
            if L.live:
                L.locals = {k: v for k, v in L.entry.items() if k[0] == "l"}
                return self._vals(loc, names)
            if e.vehicle is None:
                self._arrive(L)
                self._kill(L, self._cross(L))
            return self._havoc(L, names)
        st = self._state(L, loc)
        if L.live:
            L.locals = {k: v for k, v in st.items() if k[0] == "l"}
        again = any(C.cut and C.havoc_time > L.havoc_time for C in e.next_stack)
        if L.live and (L.arr == 2 or e.vehicle is not None and e.vehicle is not L and again):
            if e.vehicle is None:
                self._record(L, st)
                if e.reentry:
                    # From here to the next loop head inside the generator the generator's own
                    # state is that of its first step: nothing is judged (see Explorer.reentry).
                    e.vehicle = L
                    e.stats["vehicles"].setdefault(L.key, [L.lid, False])
            r = self._havoc(L, names)
            L.locals = {("l", n): v for n, v in zip(names, r)}
            return r
        if L.live:
            if e.vehicle is not None:
                if not L.around <= e.must_cut:
                    e.must_cut |= L.around
                    raise Restart("ALL")
                raise Unsupported("a generator without a loop: " + L.lid)
            self._record(L, st)
            return self._vals(loc, names)
        if e.vehicle is not None:
            if not again or e.vehicle not in e.next_stack:
                raise PathEnd
            e.stats["vehicles"][e.vehicle.key][1] = True
            r = self._havoc(L, names)
            x = self._suspended(L)
            if x not in L.plan.crossed:
                # no loop that runs the generator is in this state when the generator is here
                L.plan.filtered = True
                raise PathEnd
            e.vehicle = None
            return r
        self._arrive(L)
        self._record(L, st)
        if again:
            return self._havoc(L, names)
        raise PathEnd

    def _vals(self, loc, names):
        return tuple(loc.get(n, UNSET) for n in names)

    def _walk(self, v, depth):
        """Give serials to the objects reachable from v."""
        if depth <= 0 or v is None or is_sym(v) and not isinstance(v, PvByteArray):
            return
        t = type(v)
        if t in (str, bytes, int, float, bool) or isinstance(v, (type, types.ModuleType, types.FunctionType)):
            return
        if isinstance(v, enum.Enum):
            return
        if t is PvByteArray:
            self.register(v)
            return
        if isinstance(v, (list, PvDict)) or t is dict:
            self.register(v)
            for x in (list.__iter__(v) if isinstance(v, list) else list(v.values())):
                self._walk(x, depth - 1)
            return
        if isinstance(v, tuple):
            for x in v:
                self._walk(x, depth - 1)
            return
        if isinstance(v, types.MethodType):
            self._walk(v.__self__, depth)
            return
        if in_scope(t.__module__) or isinstance(v, Ghost) or isinstance(v, BaseException):
            self.register(v)
            d = getattr(v, "__dict__", None)
            if d:
                for n in sorted(d):
                    self._walk(d[n], depth - 1)

    # the state of a loop: locals and written heap locations
    def _state(self, L, loc):
        st = {}
        for n in L.names:
            st[("l", n)] = loc.get(n, UNSET)
        e = core.EX
        for s, attr in L.plan.locs:
            o = e.registry.get(s)
            if o is None:
                raise Unsupported("loop location vanished")
            st[("h", s, attr)] = self._get(o, attr)
        return st

    def _get(self, o, attr):
        if attr == "contents":
            if isinstance(o, PvByteArray):
                return SymBytes(o.e)
            if isinstance(o, list):
                return _Contents("list", list(list.__iter__(o)))
            if isinstance(o, PvDict):
                return _Contents("dict", None if o._l is None and dict.__len__(o) == 0 else o.copy())
            raise Unsupported(f"contents of {type(o).__name__} in a loop")
        d = getattr(o, "__dict__", None)
        if d is not None:
            return d.get(attr, UNSET)
        return getattr(o, attr, UNSET)

    def _put(self, o, attr, v, frozen=False):
        if attr == "contents":
            if isinstance(o, PvByteArray):
                o.e = V.bexpr(v)
            elif isinstance(o, list):
                list.__setitem__(o, slice(None), v.items)
            elif isinstance(o, PvDict):
                dict.clear(o)
                o._l = None
                if v.items is not None:
                    c = v.items
                    if c._l is not None:
                        o._l = [[k, x] for k, x in c._l]
                    else:
                        dict.update(o, c)
            return
        if v is UNSET:
            o.__dict__.pop(attr, None)
        elif getattr(o, "__dict__", None) is not None:
            o.__dict__[attr] = v
        else:
            object.__setattr__(o, attr, v)

    def _same(self, a, b):
        if a is b:
            return True
        if isinstance(a, _Contents):
            if not isinstance(b, _Contents) or a.kind != b.kind:
                return False
            if a.kind == "list":
                return len(a.items) == len(b.items) and all(
                    self._same(x, y) for x, y in zip(a.items, b.items)
                )
            if a.items is None or b.items is None:
                return a.items is b.items
            x, y = list(a.items.items()), list(b.items.items())
            return len(x) == len(y) and all(self._same(p, q) for p, q in zip(x, y))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self._same(x, y) for x, y in zip(a, b))
        if is_sym(a) and is_sym(b) and type(a) is type(b) and hasattr(a, "e"):
            if isinstance(a, PvByteArray):
                return False
            return z3.eq(V.simp(a.e), V.simp(b.e))
        if is_sym(a) or is_sym(b):
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return z3.eq(V.simp(V.sexp(a)), V.simp(V.sexp(b)))
            if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)):
                return z3.eq(V.simp(V.bexpr(a)), V.simp(V.bexpr(b)))
            return False
        t = type(a)
        if t is type(b) and (t in (str, bytes, int, float, bool) or isinstance(a, enum.Enum)):
            return a == b
        return False

    def _abs(self, L, loc, v, depth=4):
        """The abstract shape of a value at the loop head."""
        if loc is not None and self._same(v, L.entry.get(loc, UNSET)) and loc not in L.plan.widen:
            return ("entry",)
        if v is UNSET:
            return ("unset",)
        if v is None or v is True or v is False or isinstance(v, enum.Enum) or v is self.STOP:
            return ("c", _Id(v))
        t = type(v)
        if t is SymInt or t is int:
            return ("int",)
        if t is SymBool:
            return ("bool",)
        if t is SymReal or t is float:
            return ("real",)
        if t is SymStr:
            return ("str",)
        if t is str:
            if loc in L.plan.widen:
                return ("str",)
            return ("c", v)
        if t in (SymBytes, bytes):
            return ("bytes",)
        if t is MsgVal:
            return ("msg", _Id(v.cls))
        if isinstance(v, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
            return ("c", _Id(v))
        if isinstance(v, _Contents):
            if v.kind == "list":
                if all(isinstance(x, (bytes, SymBytes, BytesRun)) for x in v.items):
                    return ("lbytes",)
                if not v.items:
                    return ("lempty",)
                return ("poison", f"list contents {[type(x).__name__ for x in v.items][:4]}")
            if v.items is None:
                return ("dempty",)
            return ("poison", "dict contents")
        if isinstance(v, tuple) and depth > 0 and type(v) is tuple:
            return ("tuple",) + tuple(self._abs(L, None, x, depth - 1) for x in v)
        e = core.EX
        s = e.serial_of.get(id(v))
        if s is not None and s <= L.entry_serial:
            return ("obj", s)
        if loc is not None and loc[-1] == "_items" and type(v) is list and len(v) <= 4:
            return ("items",) + tuple(self._abs(L, None, x, depth - 1) for x in v)
        if depth > 0:
            if t is PvByteArray:
                return ("bytearray",)
            if t is PvDict and len(v) == 0:
                return ("newdict",)
            if isinstance(v, BaseException) or in_scope(t.__module__) or isinstance(v, Ghost):
                d = getattr(v, "__dict__", None)
                if d is not None and not isinstance(v, Loop):
                    items = []
                    for n in sorted(d):
                        if n.startswith("__"):
                            continue
                        items.append((n, self._abs(L, None, d[n], depth - 1)))
                    args = None
                    if isinstance(v, BaseException):
                        args = tuple(self._abs(L, None, x, depth - 1) for x in v.args)
                    return ("new", _Id(t), tuple(items), args)
        return ("poison", t.__name__)

    def _shape(self, L, st):
        return tuple((loc, self._abs(L, loc, v)) for loc, v in st.items())

    def _record(self, L, st):
        e = core.EX
        sh = self._shape(L, st)
        plan = L.plan
        new = {loc for loc, a in sh if a[0] in ("int", "bytes", "str", "lbytes", "real", "bytearray")} - plan.changed
        if new:
            plan.changed |= new
            if plan.recorded:
                # candidates about these were not checked of the states recorded before
                raise Restart(L.key)
        plan.recorded = True
        if sh not in plan.shapes:
            cnt = {}
            for s2 in plan.shapes + [sh]:
                for loc, a in s2:
                    if a[0] == "c" and isinstance(a[1], str):
                        cnt.setdefault(loc, set()).add(a[1])
            for loc, vs in cnt.items():
                if len(vs) > 6:
                    plan.widen.add(loc)
                    raise Restart(L.key)
            if len(plan.shapes) > 200:
                raise Unsupported("too many loop states: " + L.lid)
            plan.shapes.append(sh)
            if plan.popped:
                plan.dirty = True
        self._kill(L, self._cands(L, st) + self._cross(L))

    def _suspended(self, L):
        """The abstract states of the suspended loops that run the generator of L."""
        e = core.EX
        out = []
        for C in e.next_stack:
            if C.cut and C.live:
                st = dict(C.locals)
                for s, attr in C.plan.locs:
                    st[("h", s, attr)] = self._get(e.registry[s], attr)
                out.append((C.key, self._shape(C, st)))
        return tuple(out)

    def _arrive(self, L):
        """A judged arrival at the head of a loop in a generator."""
        if not core.EX.reentry or L.live:
            return
        x = self._suspended(L)
        if x not in L.plan.crossed:
            L.plan.crossed.add(x)
            if L.plan.popped or L.plan.filtered:
                L.plan.dirty = True

    def _cross(self, L):
        """At the head of a loop in a generator: what relates the suspended loops that run the
        generator, as their own candidate invariants do."""
        e = core.EX
        if not e.reentry or L.live:
            return []
        out = []
        for C in e.next_stack:
            if not (C.cut and getattr(C, "live", False)):
                continue
            st = dict(C.locals)
            for s, attr in C.plan.locs:
                st[("h", s, attr)] = self._get(e.registry[s], attr)
            out += [(f"{C.lid}: {n}", c, False) for n, c, d in self._cands(C, st) if n not in C.plan.killed and not d]
        return out

    def _kill(self, L, cands):
        e = core.EX
        plan = L.plan
        lost = False
        for name, c, declared in cands:
            if name in plan.killed:
                continue
            r, _ = e.prove(c, ms=1500)
            if r != "unsat":
                plan.killed.add(name)
                if e.verbose:
                    print("  dropped invariant", L.lid, name, r, "arr", L.arr, L.live)
                    if declared or os.environ.get("PYVC_DROP") and os.environ["PYVC_DROP"] in name:
                        print("      ", z3.simplify(c))
                        for p in e.pc[-12:]:
                            print("         pc", str(z3.simplify(p))[:300])
                lost = True
        if lost:
            raise Restart(L.key)

    def _cands(self, L, st):
        e = core.EX
        out = []
        ghosts = []
        for gi, g in enumerate(e.ghosts):
            for n in g._terms:
                v = g.__dict__.get(n, UNSET)
                if v is not UNSET:
                    ghosts.append((f"{type(g).__name__}{gi}.{n}", v))
        for loc, v in st.items():
            if loc not in L.plan.changed:
                continue
            nm = ".".join(str(x) for x in loc)
            t = type(v)
            if t in (SymInt, int):
                x = V.iexp(v)
                out.append((f"{nm}>=0", x >= 0, False))
                for gn, g in ghosts:
                    if isinstance(g, int):
                        out.append((f"{nm}=={gn}", x == V.iexp(g), False))
                    elif isinstance(g, (bytes, bytearray)):
                        out.append((f"{nm}==len({gn})", x == V.slen(V.bexpr(g)), False))
            elif t in (SymBytes, bytes, PvByteArray):
                for gn, g in ghosts:
                    if isinstance(g, (bytes, bytearray)) and g is not v:
                        out.append((f"{nm}=={gn}", V.bexpr(v) == V.bexpr(g), False))
            elif t is SymStr or t is str:
                for gn, g in ghosts:
                    if isinstance(g, str) and g is not v:
                        out.append((f"{nm}=={gn}", V.sexp(v) == V.sexp(g), False))
            elif isinstance(v, _Contents) and v.kind == "list":
                j = joined(v.items)
                if j is not None:
                    for gn, g in ghosts:
                        if isinstance(g, (bytes, bytearray)):
                            out.append((f"join({nm})=={gn}", j == V.bexpr(g), False))
        for name, f in e.invariants:
            try:
                c = f(L, st)
            except core.Unsupported:
                c = None
            if c is None:
                continue
            if isinstance(c, SymBool):
                c = c.e
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            out.append((name, c, True))
        return out

    def _havoc(self, L, names):
        e = core.EX
        e.clock += 1
        L.havoc_time = e.clock
        idx = e.shape_choice(L.key)
        sh = L.plan.shapes[idx]
        vals = {}
        for loc, a in sh:
            v = self._conc(L, loc, a)
            vals[loc] = v
        for s, attr in L.plan.locs:
            loc = ("h", s, attr)
            if loc in vals:
                self._put(e.registry[s], attr, vals[loc])
        entry = all(a == ("entry",) for _, a in sh)
        if L.arr > 1 and not (e.reentry and entry and L.live) or not entry:
            st = dict(vals)
            for s, attr in L.plan.locs:
                st[("h", s, attr)] = self._get(e.registry[s], attr)
            declared_dropped = False
            for name, c, declared in self._cands(L, st):
                if name in L.plan.killed:
                    if declared or os.environ.get("PYVC_DROP") and os.environ["PYVC_DROP"] in name:
                        declared_dropped = True
                    continue
                if declared:
                    e.stats["invariants"].add(name)
                e.assume(c)
                if not declared:
                    self._replace(vals, st, c)
            if declared_dropped:
                e.taint = True
        for name, c, _ in self._cross(L):
            if name not in L.plan.killed:
                e.assume(c)
        return tuple(vals[("l", n)] for n in names)

    def _replace(self, vals, st, c):
        """A havocked location that an assumed candidate fixes to a literal is that literal."""
        if not z3.is_eq(c):
            return
        for loc in list(vals):
            v = st[loc]
            if type(v) is PvByteArray and z3.is_const(v.e) and not z3.is_string_value(v.e):
                for i in (0, 1):
                    if z3.eq(c.arg(i), v.e) and z3.is_string_value(c.arg(1 - i)):
                        v.e = c.arg(1 - i)
                        break

    def _conc(self, L, loc, a):
        e = core.EX
        k = a[0]
        if k == "entry":
            return L.entry[loc]
        if k == "unset":
            return UNSET
        if k == "c":
            return a[1].v if isinstance(a[1], _Id) else a[1]
        nm = "loop_" + (loc[1] if loc and loc[0] == "l" else "heap" if loc else "in")
        if k == "int":
            return SymInt(e.fresh(nm, V.I))
        if k == "bool":
            return SymBool(e.fresh(nm, V.B))
        if k == "real":
            return SymReal(e.fresh(nm, V.R))
        if k == "str":
            return SymStr(e.fresh(nm, S))
        if k == "bytes":
            return SymBytes(e.fresh(nm, S))
        if k == "bytearray":
            r = PvByteArray(e.fresh(nm, S))
            self.register(r)
            return r
        if k == "msg":
            return MsgVal(e.fresh(nm, core.Msg), a[1].v)
        if k == "obj":
            return e.registry[a[1]]
        if k == "lbytes":
            return _Contents("list", [BytesRun(e.fresh(nm, S))])
        if k == "lempty":
            return _Contents("list", [])
        if k == "dempty":
            return _Contents("dict", None)
        if k == "newdict":
            r = PvDict()
            self.register(r)
            return r
        if k == "items":
            return [self._conc(L, None, x) for x in a[1:]]
        if k == "tuple":
            return tuple(self._conc(L, None, x) for x in a[1:])
        if k == "new":
            t = a[1].v
            if issubclass(t, BaseException):
                o = t.__new__(t)
                o.args = tuple(self._conc(L, None, x) for x in a[3])
            else:
                o = object.__new__(t)
            self.register(o)
            for n, x in a[2]:
                o.__dict__[n] = self._conc(L, None, x)
            return o
        return Poison(f"{L.lid} {loc} {a[1] if len(a) > 1 else ''}")

    def next_(self, L):
        e = core.EX
        if e is not None:
            if e.dead:
                raise PathEnd
            e.next_stack.append(L)
            if L.live:
                e.gen_stack.append(L.it)
        try:
            try:
                return next(L.it)
            except StopIteration:
                return self.STOP
        finally:
            if e is not None and not e.dead:
                e.next_stack.pop()
                if L.live:
                    e.gen_stack.pop()

    async def anext_(self, L):
        e = core.EX
        if e is not None:
            if e.dead:
                raise PathEnd
            e.next_stack.append(L)
            if L.live:
                e.gen_stack.append(L.it)
        try:
            try:
                return await L.it.__anext__()
            except StopAsyncIteration:
                return self.STOP
        finally:
            if e is not None and not e.dead:
                e.next_stack.pop()
                if L.live:
                    e.gen_stack.pop()

    def loop_done(self, L):
        e = core.EX
        if e is not None and e.vehicle is L:
            # what follows the generator's first steps was judged before
            e.stats["vehicles"][L.key][1] = True
            raise PathEnd
        L.closed = True

    def loop_close(self, L):
        c = getattr(L.it, "close", None)
        if c is not None:
            c()

    # used by models that resume a generator directly
    def resume(self, it, fn):
        e = core.EX
        g = isinstance(it, (types.GeneratorType, types.AsyncGeneratorType))
        if g:
            e.gen_stack.append(it)
        try:
            return fn()
        finally:
            if g and not e.dead:
                e.gen_stack.pop()


class _Contents:
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind, self.items = kind, items


class _Id:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _Id) and o.v is self.v

    def __hash__(self):
        return id(self.v)

    def __repr__(self):
        return repr(self.v)


class SplitSeq:
    """Placeholder base for abstract split results (see models)."""


def joined(items):
    es = []
    for x in items:
        if isinstance(x, BytesRun):
            es.append(x.e)
        else:
            b = V.bexpr(x)
            if b is None:
                return None
            es.append(b)
    return V.concat(*es) if es else z3.StringVal("")


rt = Runtime()
