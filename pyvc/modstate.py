"""The state of the library's modules: every path of an exploration starts from the one they have
when they have been imported (a path that fills a cache, say, is not to be seen by the next)."""
import enum
import functools
import sys
import types

from .runtime import PvList
from .values import PvDict

SCOPES = ("connectrpc", "protoc_gen_connectrpc")
PLAIN = (bool, int, float, str, bytes, complex, type(None), type(...))
_captured = None
_modules = 0


def in_library(name):
    return bool(name) and name.split(".")[0].startswith(SCOPES) and "._gen" not in name


class State:
    def __init__(self):
        self.seen = {}
        self.items = []     # (object, a copy of its state, read, write)
        self.caches = []
        for n, m in sorted(sys.modules.items()):
            if m is not None and in_library(n):
                self.namespace(m.__dict__)

    def keep(self, x, read, write):
        self.items.append((x, read(x), read, write))

    def namespace(self, d):
        if id(d) in self.seen:
            return
        self.seen[id(d)] = d
        self.keep(d, _read_dict, _write_dict)
        for k, v in list(d.items()):
            if not (isinstance(k, str) and k.startswith("__")):
                self.walk(v)

    def walk(self, x):
        if isinstance(x, PLAIN) or id(x) in self.seen:
            return
        t = type(x)
        if isinstance(x, types.ModuleType):
            return
        if t in (tuple, frozenset):
            self.seen[id(x)] = x
            for v in x:
                self.walk(v)
        elif t in (list, PvList):
            self.seen[id(x)] = x
            self.keep(x, _read_list, _write_list)
            for v in list.__iter__(x):
                self.walk(v)
        elif t is PvDict:
            self.seen[id(x)] = x
            self.keep(x, _read_pv, _write_pv)
            for k, v in dict.items(x):
                self.walk(v)
        elif t is dict:
            self.seen[id(x)] = x
            self.keep(x, _read_dict, _write_dict)
            for v in list(x.values()):
                self.walk(v)
        elif t in (set, bytearray):
            self.seen[id(x)] = x
            self.keep(x, t, _write_set if t is set else _write_bytes)
        elif isinstance(x, type):
            if in_library(x.__module__):
                self.seen[id(x)] = x
                self.keep(x, _read_class, _write_class)
                for k, v in list(x.__dict__.items()):
                    if not k.startswith("__") and k != "_abc_impl":
                        self.walk(v)
        elif isinstance(x, (staticmethod, classmethod)):
            self.walk(x.__func__)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                self.walk(f)
        elif isinstance(x, types.FunctionType):
            if in_library(x.__module__):
                self.seen[id(x)] = x
                self.keep(x.__dict__, _read_dict, _write_dict)
                for v in (x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values()) + tuple(x.__dict__.values()):
                    self.walk(v)
                for c in x.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if id(c) not in self.seen:
                        self.seen[id(c)] = c
                        self.keep(c, _read_cell, _write_cell)
                    self.walk(v)
        elif isinstance(x, types.MethodType):
            self.walk(x.__func__)
            self.walk(x.__self__)
        elif isinstance(x, functools.partial):
            self.walk(x.func)
        elif hasattr(x, "cache_clear") and hasattr(x, "cache_info"):
            self.caches.append(x)
            self.walk(getattr(x, "__wrapped__", None))
        elif in_library(t.__module__):
            self.seen[id(x)] = x
            d = getattr(x, "__dict__", None)
            if isinstance(d, dict):
                self.keep(d, _read_dict, _write_dict)
                for v in list(d.values()):
                    self.walk(v)
            slots = [s for c in t.__mro__ for s in _slots(c)]
            if slots:
                self.keep(x, functools.partial(_read_slots, slots), _write_slots)
                for v in _read_slots(slots, x).values():
                    self.walk(v)
            if isinstance(x, PvDict):
                self.keep(x, _read_pv, _write_pv)
            elif isinstance(x, dict):
                self.keep(x, _read_dict, _write_dict)
            elif isinstance(x, list):
                self.keep(x, _read_list, _write_list)

    def restore(self):
        for x, old, read, write in self.items:
            if not _same(read(x), old):
                write(x, old)
        for c in self.caches:
            c.cache_clear()

    def tracked(self):
        """The objects the engine may have to know as parts of loops."""
        return [x for x in self.seen.values() if type(x) in (PvDict, PvList) or in_library(type(x).__module__) and not isinstance(x, (type, types.FunctionType, enum.Enum))]


def _same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return len(a) == len(b) and all(k is m and u is v for (k, u), (m, v) in zip(a.items(), b.items()))
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(u is v or type(u) is tuple and _same(u, v) for u, v in zip(a, b))
    return a is b or isinstance(a, (set, bytearray)) and a == b


def _read_dict(d):
    return dict(d.items()) if type(d) is dict else dict(dict.items(d))


def _write_dict(d, old):
    dict.clear(d)
    dict.update(d, old)


def _read_list(x):
    return list(list.__iter__(x))


def _write_list(x, old):
    list.__setitem__(x, slice(None), old)
    if isinstance(x, PvList):
        for s in ("_abs", "_bp"):
            if hasattr(x, s):
                try:
                    delattr(x, s)
                except AttributeError:
                    pass


def _read_pv(x):
    return (None if x._l is None else [tuple(p) for p in x._l], list(dict.items(x)), getattr(x, "_lazy", None))


def _write_pv(x, old):
    x._l = None if old[0] is None else [list(p) for p in old[0]]
    x._lazy = old[2]
    dict.clear(x)
    dict.update(x, old[1])
    for s in ("_abs", "_bp"):
        if hasattr(x, s):
            delattr(x, s)


def _read_class(c):
    return {k: v for k, v in c.__dict__.items() if not k.startswith("__") and k != "_abc_impl"}


def _write_class(c, old):
    for k, v in _read_class(c).items():
        if k not in old:
            type.__delattr__(c, k)
    now = _read_class(c)
    for k, v in old.items():
        if now.get(k) is not v:
            type.__setattr__(c, k, v)


def _read_cell(c):
    try:
        return (c.cell_contents,)
    except ValueError:
        return ()


def _write_cell(c, old):
    if old:
        c.cell_contents = old[0]


def _slots(c):
    s = c.__dict__.get("__slots__", ())
    return [n for n in ([s] if isinstance(s, str) else s) if n not in ("__weakref__", "__dict__", "_l", "_lazy", "_abs", "_bp")]


_MISSING = object()


def _read_slots(names, x):
    r = {}
    for n in names:
        try:
            r[n] = object.__getattribute__(x, n)
        except AttributeError:
            pass
    return r


def _write_slots(x, old):
    for n, v in old.items():
        object.__setattr__(x, n, v)


def _write_set(x, old):
    x.clear()
    x.update(old)


def _write_bytes(x, old):
    x[:] = old


_numbers = {}


def get():
    """Captured when the library has been imported and nothing has run."""
    global _captured, _modules
    if _captured is None or len(sys.modules) != _modules:
        _modules = len(sys.modules)
        old = _captured
        _captured = State()
        if old is not None:
            # what was known keeps the state it had
            known = {id(x): s for x, s, _, _ in old.items}
            _captured.items = [(x, known.get(id(x), s) if not isinstance(x, dict) or "__name__" not in x else s, r, w) for x, s, r, w in _captured.items]
        for x in _captured.tracked():
            _numbers.setdefault(id(x), (-1 - len(_numbers), x))
    return _captured


def numbered():
    """The objects and their serial numbers: negative, they are older than any path."""
    return _numbers.values()
