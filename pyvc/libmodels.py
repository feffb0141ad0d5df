"""Models of the third-party classes at the edge of the library: pyqwest's headers and full
responses, and the protobuf messages that carry error details."""
from __future__ import annotations

import json

import z3

from . import core, values as V
from .core import Unsupported, ex
from .models import _ClassMethods, reg_walk, used
from .runtime import Ghost, PvList, rt
from .values import S, SymBytes, deep_sym, is_sym

from . import models

models.ASSUMPTIONS.update({
    "pyqwest.Headers": "pyqwest.Headers is a case-insensitive multimap that keeps the order of values; names are lower-cased",
    "protobuf": "google.rpc.Status and Any survive protobuf serialization, which is not empty unless every field is",
})


class HTTPHeadersModel(Ghost):
    def __init__(self, items=()):
        used("pyqwest.Headers")
        object.__setattr__(self, "_items", [])
        if items is None:
            items = ()
        if hasattr(items, "items") and not isinstance(items, (list, tuple)):
            items = items.items()
        for k, v in rt.call(list, items):
            self.add(k, v)

    def _set(self, items):
        rt.track(self, "_items")
        object.__setattr__(self, "_items", items)

    @staticmethod
    def _same(a, b):
        return bool(rt.eq(a, b))

    def add(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError("header name and value must be str")
        k = rt.mcall(k, "lower")
        new, at = list(self._items), len(self._items)
        for n, (kk, _) in enumerate(self._items):
            if self._same(k, kk):
                at = n + 1
        new.insert(at, (k, v))
        self._set(new)

    def getall(self, k):
        k = rt.mcall(k, "lower")
        return rt.mklist([v for kk, v in self._items if self._same(k, kk)])

    def get(self, k, d=None):
        k = rt.mcall(k, "lower")
        for kk, v in self._items:
            if self._same(k, kk):
                return v
        return d

    def __getitem__(self, k):
        k = rt.mcall(k, "lower")
        for kk, v in self._items:
            if self._same(k, kk):
                return v
        raise KeyError(k)

    def __contains__(self, k):
        return isinstance(k, str) and self.pv_contains(k)

    def pv_contains(self, k):
        k = rt.mcall(k, "lower")
        return any(self._same(k, kk) for kk, _ in self._items)

    def __setitem__(self, k, v):
        self.pop(k, None)
        self.add(k, v)

    def pop(self, k, d=None):
        k = rt.mcall(k, "lower")
        out, new = [], []
        for kk, v in self._items:
            (out if self._same(k, kk) else new).append((kk, v))
        self._set(new)
        return out[0][1] if out else d

    def __delitem__(self, k):
        self.pop(k)

    def items(self):
        return rt.mklist(list(self._items))

    def _names(self):
        out = []
        for k, _ in self._items:
            if not out or not self._same(out[-1], k):
                out.append(k)
        return out

    def keys(self):
        return rt.mklist(self._names())

    def __iter__(self):
        return iter(self._names())

    def __len__(self):
        return len(self._names())

    def __bool__(self):
        return bool(self._items)

    def __repr__(self):
        return "HTTPHeaders"


class FullResponseModel(Ghost):
    def __init__(self, status, headers, content, trailers=None):
        self.status = status
        self.headers = headers
        self.content = content
        self.trailers = trailers

    def json(self):
        return rt.call(json.loads, self.content)

    def text(self):
        return rt.call(self.content.decode)


def install():
    try:
        import pyqwest
    except ImportError:
        pass
    else:
        rt.model(pyqwest.Headers)(HTTPHeadersModel)
        rt.model(pyqwest.FullResponse)(FullResponseModel)
    try:
        from protobuf.wkt import Any
        from connectrpc._gen.status_pb import Status
    except ImportError:
        return

    def to_binary(s, **k):
        fields = [s.code, s.message] + [x for d in s.details for x in (d.type_url, d.value)]
        if not any(is_sym(x) for x in fields):
            return s.to_binary(**k)
        used("protobuf")  # and is not empty unless all fields have their default values
        r = ex().fresh("status", S)
        if type(s.code) is int and s.code != 0 or s.details:
            V.fact(z3.Length(r) > 0)
        ex().data.setdefault("statuses", []).append((r, s.code, s.message, [(d.type_url, d.value) for d in s.details]))
        return SymBytes(r)

    def from_binary(cls, b, **k):
        if not is_sym(b):
            return cls.from_binary(b, **k)
        used("protobuf")
        x = V.bexpr(b)
        for r, c, m, ds in ex().data.get("statuses", ()):
            if z3.eq(r, x):
                return Status(code=c, message=m, details=[Any(type_url=t, value=v) for t, v in ds])
        f = ex().data.get("status_from_binary")
        if f is not None:
            return f(x)
        raise Unsupported("parsing arbitrary protobuf bytes")

    @rt.model(Any)
    def any_(*a, **k):
        # a plain record, also of symbolic values
        for n, x in k.items():
            if not isinstance(x, {"type_url": str, "value": (bytes, bytearray)}.get(n, object)):
                raise TypeError(f"{n}: {type(x).__name__}")
        return Any(*a, **k)

    rt.methods[(Status, "to_binary")] = to_binary
    _ClassMethods.table[(Status, "from_binary")] = from_binary


install()
