"""Models of the Python builtins and library functions the code under contract uses.

Each model is exact for concrete arguments (it calls the real function) and gives the
symbolic meaning otherwise.  Uninterpreted library functions are listed in ASSUMPTIONS; the
names used in a run are reported in the evidence.
"""
from __future__ import annotations

import asyncio
import base64
import builtins
import contextlib
import dataclasses
import functools
import http
import inspect
import json
import struct
import time
import traceback
import typing
import types
import urllib.parse

import z3

from . import core, values as V
from .core import PathEnd, Unsupported, ex, uf, Msg
from .runtime import BytesRun, Ghost, PvList, SplitSeq, in_scope, joined, rt
from .values import (
    B, DView, I, MsgVal, PvByteArray, PvDict, R, S, Sym, SymBool, SymBytes, SymInt, SymReal,
    SymStr, deep_sym, fact, is_sym, memo,
)

ASSUMPTIONS = {
    "lower": "str.lower is idempotent, length-preserving and distributes over concatenation (names are ASCII)",
    "utf8": "UTF-8 encoding and decoding are mutually inverse; encoding distributes over concatenation",
    "b64": "base64 decoding inverts encoding, with any padding of 0 to 3 extra '='",
    "quote": "urllib.parse.unquote inverts quote; parse_qs inverts urlencode",
    "json": "json.loads inverts json.dumps on JSON values",
    "enc32": "struct.pack('>I') and int.from_bytes(.., 'big') are mutually inverse on 32-bit values",
    "isdigit": "int() accepts exactly the digit strings among [0-9]* with their decimal value; other accepted spellings are arbitrary",
    "real": "floating-point arithmetic on times is treated as real arithmetic",
    "asyncio": "asyncio.sleep returns; wait_for returns the awaitable's result or raises TimeoutError or CancelledError; tasks run",
    "gzip": "gzip/brotli/zstd decompress inverts compress (uninterpreted pair)",
}


def used(n):
    ex().assumed.add("lib:" + n)


# ------------------------------------------------------------ conversions
def int_to_str(e):
    if ex().branch(e >= 0):
        return z3.IntToStr(e)
    return V.concat(z3.StringVal("-"), z3.IntToStr(-e))


# no int() literal of base 10 has another ASCII character, or ends in a sign or underscore
_END = z3.Union(z3.Range("0", "9"), z3.Range(chr(9), chr(13)), z3.Range(chr(28), chr(32)), z3.Diff(z3.AllChar(z3.ReSort(S)), z3.Range(chr(0), chr(127))))
NUMERAL = z3.Concat(z3.Star(z3.Union(_END, z3.Re("+"), z3.Re("-"), z3.Re("_"))), _END)


@rt.model(str)
def m_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    if len(a) > 1 or k:
        if isinstance(x, (SymBytes, PvByteArray)):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    if isinstance(x, SymStr):
        return x
    if type(x) is SymInt:
        return V.mkstr(int_to_str(x.e))
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, BaseException):
        f = type(x).__str__
        if isinstance(f, types.FunctionType):
            return f(x)
        if deep_sym(x):
            if len(x.args) == 1 and f in (BaseException.__str__, Exception.__str__, OSError.__str__):
                return rt.call(str, x.args[0])
            return V.mkstr(ex().fresh("str_exc", S))
        return str(x)
    if is_sym(x) or deep_sym(x):
        return V.mkstr(ex().fresh("str_of", S))
    f = type(x).__str__
    if isinstance(f, types.FunctionType) and in_scope(type(x).__module__):
        return f(x)
    return str(x)


@rt.model(repr)
def m_repr(x):
    if deep_sym(x):
        return V.mkstr(ex().fresh("repr", S))
    return repr(x)


DIGITS = z3.Plus(z3.Range("0", "9"))


@rt.model(int)
def m_int(*a, **k):
    if not a or (len(a) == 1 and not k and not is_sym(a[0])):
        return int(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if any(deep_sym(y) for y in a):
            raise Unsupported("int with base")
        return int(*a, **k)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return V.mkint(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SymReal):
        if ex().branch(x.e >= 0):
            return V.mkint(V.simp(z3.ToInt(x.e)))
        return V.mkint(V.simp(-z3.ToInt(-x.e)))
    if isinstance(x, (SymStr, SymBytes)):
        used("isdigit")
        e = x.e
        if not z3.is_app_of(e, z3.Z3_OP_INT_TO_STR):
            e = V.simp(e)
        if z3.is_app_of(e, z3.Z3_OP_INT_TO_STR):
            # the term exists only on paths where its argument is non-negative
            return V.mkint(e.arg(0))
        if ex().branch(z3.InRe(x.e, DIGITS)):
            return SymInt(z3.StrToInt(x.e))
        # a sign, blanks, underscores or other digits may still make it a number
        fact(z3.Implies(uf("int_ok", S, B)(x.e), z3.InRe(x.e, NUMERAL)))
        if ex().branch(uf("int_ok", S, B)(x.e)):
            return SymInt(uf("int_val", S, I)(x.e))
        raise ValueError("invalid literal for int() with base 10")
    raise Unsupported(f"int of {type(x).__name__}")


@rt.model(float)
def m_float(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.e))
        raise Unsupported("float of text")
    return float(*a)


@rt.model(bool)
def m_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    return bool(*a)


@rt.model(abs)
def m_abs(x):
    return x.__abs__() if is_sym(x) else abs(x)


@rt.model(round)
def m_round(x, *a):
    if is_sym(x):
        if isinstance(x, SymInt) and not a:
            return x
        if isinstance(x, SymReal) and not a:
            r = ex().fresh("round", I)
            fact(z3.And(z3.ToReal(r) <= x.e + z3.RealVal("1/2"), z3.ToReal(r) >= x.e - z3.RealVal("1/2")))
            return SymInt(r)
        raise Unsupported("round")
    return round(x, *a)


@rt.model(len)
def m_len(x):
    if is_sym(x):
        f = getattr(x, "pv_len", None)
        if f is None:
            raise Unsupported(f"len of {type(x).__name__}")
        return f()
    if isinstance(x, PvDict):
        return x.pv_len()
    if isinstance(x, PvList) and any(getattr(y, "_pv_run", False) for y in list.__iter__(x)):
        n = 0
        for y in list.__iter__(x):
            n = n + (y.size if getattr(y, "_pv_run", False) else 1)
        return n
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType) and not isinstance(x, (PvList, PvDict)):
        return f(x)
    return len(x)


@rt.model(isinstance)
def m_isinstance(x, t):
    return isinstance(x, t)


@rt.model(issubclass)
def m_issubclass(x, t):
    return issubclass(x, t)


@rt.model(callable)
def m_callable(x):
    return callable(x)


@rt.model(id)
def m_id(x):
    return id(x)


@rt.model(type)
def m_type(*a):
    if len(a) == 1:
        return a[0].__class__ if is_sym(a[0]) else type(a[0])
    return type(*a)


@rt.model(getattr)
def m_getattr(o, n, *d):
    if is_sym(n):
        raise Unsupported("getattr with a symbolic name")
    try:
        return rt.getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@rt.model(hasattr)
def m_hasattr(o, n):
    if is_sym(n):
        raise Unsupported("hasattr with a symbolic name")
    return hasattr(o, n)


@rt.model(setattr)
def m_setattr(o, n, v):
    rt.setattr(o, n, v)


@rt.model(bytes)
def m_bytes(*a, **k):
    if a and isinstance(a[0], (SymBytes, PvByteArray)):
        return V.mkbytes(a[0].e)
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    if a and (is_sym(a[0]) or deep_sym(a[0])):
        if isinstance(a[0], list) and len(a[0]) <= 8:
            return V.mkbytes(V.concat(*[_byte(x) for x in a[0]]))
        raise Unsupported("bytes of a symbolic value")
    return bytes(*a, **k)


def _byte(x):
    n = V.iexp(x)
    if ex().branch(z3.Or(n < 0, n > 255)):
        raise ValueError("bytes must be in range(0, 256)")
    return V.simp(z3.StrFromCode(n))


@rt.model(bytearray)
def m_bytearray(*a, **k):
    if not a:
        r = PvByteArray(z3.StringVal(""))
    else:
        b = V.bexpr(a[0])
        if b is None:
            if is_sym(a[0]):
                raise Unsupported("bytearray of a symbolic value")
            b = V.bval(bytearray(*a, **k))
        r = PvByteArray(b)
    rt.register(r)
    return r


@rt.model(memoryview)
def m_memoryview(x):
    b = V.bexpr(x)
    if b is None:
        raise TypeError("memoryview")
    return V.mkbytes(b)


# ------------------------------------------------------------ collections
def elements(it, lid):
    """The elements of an iterable as a native list (through a cuttable loop)."""
    if type(it) in (list, tuple) or isinstance(it, (PvList, range, str, bytes)) and not is_sym(it):
        return list(it) if not isinstance(it, PvList) else [x for x in it]
    if type(it) is PvDict or isinstance(it, (dict, DView)):
        return list(it)
    if isinstance(it, SplitSeq) or is_sym(it):
        raise Unsupported(f"elements of {type(it).__name__}")
    if isinstance(it, (types.GeneratorType,)) or getattr(type(it), "_pv_env_iter", False) or in_scope(type(it).__module__):
        return rt._comp_loop(lid, "list", it, lambda x: x, None, False)
    return list(it)


@rt.model(list)
def m_list(*a):
    r = PvList()
    if a:
        list.extend(r, _raw(elements(a[0], "list()")))
    rt.register(r)
    return r


def _raw(x):
    return list.__iter__(x) if isinstance(x, list) else x


@rt.model(tuple)
def m_tuple(*a):
    if not a:
        return ()
    if type(a[0]) is tuple:
        return a[0]
    return tuple(_raw(elements(a[0], "tuple()")))


@rt.model(set)
def m_set(*a):
    if not a:
        r = set()
        rt.register(r)
        return r
    xs = elements(a[0], "set()")
    if deep_sym(xs):
        raise Unsupported("set of symbolic values")
    r = set(xs)
    rt.register(r)
    return r


@rt.model(frozenset)
def m_frozenset(*a):
    return frozenset(m_set(*a))


@rt.model(dict)
def m_dict(*a, **k):
    r = PvDict()
    rt.register(r)
    if a:
        if isinstance(a[0], dict) or hasattr(a[0], "keys"):
            r.update(a[0])
        else:
            for kk, vv in elements(a[0], "dict()"):
                r[kk] = vv
    for kk, vv in k.items():
        r[kk] = vv
    return r


@rt.model(iter)
def m_iter(x, *a):
    if a:
        raise Unsupported("iter with a sentinel")
    if is_sym(x):
        raise Unsupported(f"iteration over {type(x).__name__}")
    return iter(x)


class _Resume:
    """A consumer that asks for one more element: inner loops continue from any state."""

    cut = True
    concrete = False
    live = False
    around = property(lambda self: set())

    def __init__(self):
        e = ex()
        e.clock += 1
        self.havoc_time = e.clock


@rt.model(next)
def m_next(it, *d):
    e = ex()
    e.next_stack.append(_Resume())
    try:
        try:
            return rt.resume(it, lambda: next(it))
        finally:
            if not e.dead:
                e.next_stack.pop()
    except StopIteration:
        if d:
            return d[0]
        raise


@rt.model(anext)
def m_anext(it, *d):
    async def go():
        e = ex()
        e.next_stack.append(_Resume())
        e.gen_stack.append(it)
        try:
            try:
                return await type(it).__anext__(it)
            finally:
                if not e.dead:
                    e.next_stack.pop()
                    e.gen_stack.pop()
        except StopAsyncIteration:
            if d:
                return d[0]
            raise

    return go()


@rt.model(aiter)
def m_aiter(x):
    return type(x).__aiter__(x)


@rt.model(reversed)
def m_reversed(x):
    if isinstance(x, (list, tuple)):
        return iter(list(x)[::-1])
    if in_scope(type(x).__module__) or isinstance(x, (dict, DView)):
        return iter(elements(x, "reversed()")[::-1])
    return reversed(x)


@rt.model(enumerate)
def m_enumerate(x, start=0):
    if isinstance(x, (list, tuple)):
        return iter([(i + start, y) for i, y in enumerate(x)])

    def g():
        n = start
        for y in elements(x, "enumerate()"):
            yield n, y
            n = n + 1

    return iter(list(g()))


@rt.model(zip)
def m_zip(*xs, **k):
    k.pop("strict", None)
    return iter(list(zip(*[elements(x, "zip()") for x in xs])))


@rt.model(map)
def m_map(f, x):
    return rt._gen("map()", x, lambda y: rt.call(f, y), None, False)


@rt.model(filter)
def m_filter(f, x):
    return rt._gen("filter()", x, lambda y: y, (lambda y: rt.truth(rt.call(f, y) if f else y)), False)


@rt.model(any)
def m_any(x):
    L = rt.loop("any()", "for", x, False)
    while True:
        rt.head(L, {}, ())
        y = rt.next_(L)
        if y is rt.STOP:
            return False
        if y:
            return True


@rt.model(all)
def m_all(x):
    L = rt.loop("all()", "for", x, False)
    while True:
        rt.head(L, {}, ())
        y = rt.next_(L)
        if y is rt.STOP:
            return True
        if not y:
            return False


@rt.model(sum)
def m_sum(x, start=0):
    r = start
    for y in elements(x, "sum()"):
        r = r + y
    return r


def _minmax(name, lt):
    real = getattr(builtins, name)

    @rt.model(real)
    def f(*a, **k):
        xs = elements(a[0], name + "()") if len(a) == 1 else list(a)
        if not deep_sym(xs):
            return real(xs, **k)
        if k:
            raise Unsupported(name + " with key")
        r = xs[0]
        for y in xs[1:]:
            if lt(y, r):
                r = y
        return r

    return f


_minmax("min", lambda a, b: a < b)
_minmax("max", lambda a, b: a > b)


@rt.model(sorted)
def m_sorted(x, **k):
    xs = elements(x, "sorted()")
    key = k.get("key")
    ks = [rt.call(key, y) for y in xs] if key else xs
    if deep_sym(ks):
        # stable insertion, with the comparisons of the values
        order = []
        rev = bool(k.get("reverse", False))
        for i in range(len(xs)):
            at = len(order)
            while at > 0 and bool(ks[order[at - 1]] < ks[i] if rev else ks[i] < ks[order[at - 1]]):
                at -= 1
            order.insert(at, i)
        r = PvList(xs[i] for i in order)
        rt.register(r)
        return r
    order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=k.get("reverse", False))
    r = PvList(xs[i] for i in order)
    rt.register(r)
    return r


@rt.model(traceback.format_exception)
def m_format_exception(*a, **k):
    return rt.mklist([V.mkstr(ex().fresh("traceback", S))])


@rt.model(print)
def m_print(*a, **k):
    return None


def _join(sep, it):
    text = isinstance(sep, str)
    if isinstance(it, PvList) and it._run():
        if V.const_str((V.sexp if text else V.bexpr)(sep)) != "" or text:
            raise Unsupported("join of an abstracted list")
        j = joined(list.__iter__(it))
        if j is None:
            raise Unsupported("join of an abstracted list")
        return V.mkbytes(j)
    if isinstance(it, SplitSeq):
        return it.join(sep)
    xs = elements(it, "join()")
    if isinstance(xs, PvList) and xs._run():
        return _join(sep, xs)
    if not deep_sym(xs) and not is_sym(sep):
        return sep.join(xs)
    f = V.sexp if text else V.bexpr
    s = f(sep)
    es = []
    for i, x in enumerate(xs):
        if i:
            es.append(s)
        y = f(x)
        if y is None:
            raise TypeError("sequence item: wrong type")
        es.append(y)
    r = V.concat(*es) if es else z3.StringVal("")
    return V.mkstr(r) if text else V.mkbytes(r)


@rt.method(str, "join")
def m_join(s, it):
    return _join(s, it)


@rt.method(bytes, "join")
def m_bjoin(s, it):
    return _join(s, it)


def _text_method(name, cls):
    def f(s, *a):
        x = SymStr(V.sexp(s)) if cls is str else SymBytes(V.bexpr(s))
        return getattr(x, name)(*a)

    rt.methods[(cls, name + "!sym")] = f


for _n in ("startswith", "endswith", "removeprefix", "removesuffix", "find", "partition", "rpartition", "replace"):
    _text_method(_n, str)
    _text_method(_n, bytes)


@rt.method(str, "format!sym")
def m_format(s, *a, **k):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = k[field]
        out.append((v, ord(conv) if conv else -1, spec or ""))
    return rt.fstr(*out)


def _list_search(name):
    def f(xs, v):
        for i, x in enumerate(xs):
            if x is v or rt.truth(rt.eq(x, v)):
                if name == "index":
                    return i
                if name == "remove":
                    del xs[i]
                    return None
        raise ValueError("not in list")

    rt.methods[(list, name + "!sym")] = f


_list_search("index")
_list_search("remove")
rt.methods[(dict, "get!sym")] = lambda d, k, *x: _dget(d, k, *x)
rt.methods[(list, "extend!sym")] = lambda xs, ys: list.extend(xs, elements(ys, "extend"))
rt.methods[(list, "append!sym")] = lambda xs, y: list.append(xs, y)


def _dget(d, k, default=None):
    if not is_sym(k):
        return d.get(k, default)
    for kk in list(d.keys()):
        if rt.truth(rt.eq(k, kk)):
            return d[kk]
    return default


for _T in (types.MappingProxyType,):
    rt.methods[(_T, "get")] = _dget


# class methods of builtins are reached through mcall(type, name)
def _int_from_bytes(cls, b, byteorder="big", **k):
    x = V.bexpr(b)
    if x is None or not is_sym(b):
        return cls.from_bytes(b, byteorder, **k)
    if byteorder != "big" or k.get("signed"):
        raise Unsupported("int.from_bytes")
    if V.const_str(x) is not None:
        return int.from_bytes(V.const_str(x).encode("latin-1"), "big")
    n = V.const_int(V.simp(V.slen(x)))
    if n is None:
        r, _ = ex().prove(V.slen(x) == 4)
        if r == "unsat":
            n = 4
        else:
            r, _ = ex().prove(V.slen(x) == 1)
            n = 1 if r == "unsat" else None
    if n == 4:
        used("enc32")
        return V.mkint(V.be32(x))
    if n == 1:
        return V.mkint(V.byte_of(x))
    raise Unsupported("int.from_bytes of another length")


class _ClassMethods:
    table = {(int, "from_bytes"): _int_from_bytes}


def _type_mcall(obj, name):
    return _ClassMethods.table.get((obj, name))


rt.type_mcall = _type_mcall

_dict_fromkeys = lambda cls, it, v=None: m_dict([(x, v) for x in elements(it, "fromkeys")])
_ClassMethods.table[(dict, "fromkeys")] = _dict_fromkeys


# ------------------------------------------------------------ struct, base64, json, urls
@rt.model(struct.pack)
def m_pack(fmt, *a):
    if not deep_sym(a):
        return struct.pack(fmt, *a)
    f = fmt.lstrip("!>")
    if f == fmt or len(f) != len(a):
        raise Unsupported("struct.pack " + fmt)
    out = []
    used("enc32")
    for c, x in zip(f, a):
        n = V.iexp(x)
        if c == "B":
            if ex().branch(z3.Or(n < 0, n > 255)):
                raise struct.error("ubyte format requires 0 <= number <= 255")
            v = V.const_int(n)
            out.append(V.sval(chr(v)) if v is not None else V.simp(z3.StrFromCode(n)))
        elif c == "I":
            if ex().data.get("small"):
                used("small")
                V.fact(n < 2**32)
            if ex().branch(z3.Or(n < 0, n >= 2**32)):
                raise struct.error("'I' format requires 0 <= number <= 4294967295")
            out.append(V.enc32(V.simp(n)))
        else:
            raise Unsupported("struct.pack " + fmt)
    return V.mkbytes(V.concat(*out))


@rt.model(struct.unpack)
def m_unpack(fmt, b):
    x = V.bexpr(b)
    if not is_sym(b):
        return struct.unpack(fmt, b)
    f = fmt.lstrip("!>")
    size = sum({"B": 1, "I": 4}.get(c, 1000) for c in f)
    if f == fmt or size > 999:
        raise Unsupported("struct.unpack " + fmt)
    if ex().branch(V.slen(x) != size):
        raise struct.error("unpack requires a buffer")
    used("enc32")
    out, off = [], 0
    for c in f:
        if c == "B":
            out.append(V.mkint(V.byte_of(V.do_index(x, off))))
            off += 1
        else:
            out.append(V.mkint(V.be32(V.do_slice(x, slice(off, off + 4)))))
            off += 4
    return tuple(out)


def _b64enc(name, x):
    """name: b64 or ub64"""
    r = uf(name, S, S)(x)

    def ax():
        fact(z3.Length(r) == 4 * ((z3.Length(x) + 2) / 3))
        return True

    memo((name, x), ax)
    return r


def _m_b64encode(name, real):
    @rt.model(real)
    def f(b, *a):
        x = V.bexpr(b)
        if not is_sym(b):
            return real(b, *a)
        if a:
            raise Unsupported("base64 alphabet")
        used("b64")
        return SymBytes(_b64enc(name, x))


_m_b64encode("b64", base64.b64encode)
_m_b64encode("b64", base64.standard_b64encode)
_m_b64encode("ub64", base64.urlsafe_b64encode)


def _m_b64decode(name, real):
    @rt.model(real)
    def f(s, *a, **k):
        import binascii

        if not is_sym(s):
            return real(s, *a, **k)
        used("b64")
        x = V.sexp(s) if isinstance(s, SymStr) else V.bexpr(s)
        ps = V.parts(x)
        # any run of '=' after a (padded or unpadded) encoding
        pad = all(V.const_str(p) is not None and set(V.const_str(p)) <= {"="} for p in ps[1:])
        if pad:
            h = ps[0]
            npad = sum(len(V.const_str(p)) for p in ps[1:])
            if V._is(h, name):
                return V.mkbytes(h.arg(0))
            if V._is(h, name + "np") and npad >= 2:
                return V.mkbytes(h.arg(0))
        if ex().branch(uf("is_" + name, S, B)(x)):
            return SymBytes(uf("dec_" + name, S, S)(x))
        raise binascii.Error("Incorrect padding")


_m_b64decode("b64", base64.b64decode)
_m_b64decode("b64", base64.standard_b64decode)
_m_b64decode("ub64", base64.urlsafe_b64decode)


@rt.model(urllib.parse.quote)
def m_quote(s, safe="/", **k):
    if not is_sym(s):
        return urllib.parse.quote(s, safe, **k)
    used("quote")
    x = V.sexp(s) if isinstance(s, SymStr) else V.bexpr(s)
    r = uf(f"quote_{safe}", S, S)(x)

    def ax():
        fact((z3.Length(r) == 0) == (z3.Length(x) == 0))
        fact(z3.Length(r) >= z3.Length(x))
        return True

    memo(("quote" + safe, x), ax)
    return SymStr(r)


@rt.model(urllib.parse.unquote)
def m_unquote(s, *a, **k):
    if not is_sym(s):
        return urllib.parse.unquote(s, *a, **k)
    used("quote")
    x = V.sexp(s)
    if z3.is_app(x) and x.decl().name().startswith("quote_"):
        return V.mkstr(x.arg(0))
    return SymStr(uf("unquote", S, S)(x))


class UrlEncoded:
    pass


@rt.model(urllib.parse.urlencode)
def m_urlencode(params, *a, **k):
    if not deep_sym(params):
        return urllib.parse.urlencode(params, *a, **k)
    used("quote")
    items = [(kk, v) for kk, v in params.items()]
    reg = ex().data.setdefault("urlenc", {})
    for key, (same, known) in ex().data.setdefault("urlenc_terms", {}).items():
        if _identical(items, known):
            return SymStr(same)
    r = ex().fresh("urlenc", S)
    reg[str(r)] = items
    ex().data["urlenc_terms"][str(r)] = (r, items)
    return SymStr(r)


@rt.model(urllib.parse.parse_qs)
def m_parse_qs(q, *a, **k):
    if not is_sym(q):
        return PvDict({kk: PvList(v) for kk, v in urllib.parse.parse_qs(q, *a, **k).items()})
    used("quote")
    reg = ex().data.get("urlenc", {})
    x = V.sexp(q)
    if V._is(x, "utf8enc"):
        x = x.arg(0)
    if str(x) in reg:
        r = PvDict()
        keep = a[0] if a else k.get("keep_blank_values", False)
        for kk, v in reg[str(x)]:
            if not keep and not rt.truth(rt.call(len, v)):
                continue
            r[kk] = PvList([v])
        rt.register(r)
        return r
    f = ex().data.get("parse_qs")
    if f is not None:
        return f(q)
    raise Unsupported("parse_qs of an arbitrary query string")


class JsonVal:
    pass


@rt.model(json.dumps)
def m_dumps(v, **k):
    if not deep_sym(v, 8):
        return json.dumps(v, **k)
    used("json")
    v = _freeze(v)
    if not k:
        for r, o in ex().json_reg:
            if _identical(v, o):
                return SymStr(r)
    r = ex().fresh("json", S)
    fact(z3.Length(r) >= 2)
    ex().json_reg.append((r, v))
    return SymStr(r)


def _identical(a, b):
    """Whether two JSON structures are the same, term by term."""
    if type(a) is not type(b):
        return False
    if is_sym(a):
        return a.e.eq(b.e)
    if isinstance(a, PvDict):
        x, y = list(a.items()), list(b.items())
        return len(x) == len(y) and all(_identical(k, m) and _identical(u, v) for (k, u), (m, v) in zip(x, y))
    if isinstance(a, PvList):
        return len(a) == len(b) and all(_identical(u, v) for u, v in zip(a, b))
    return a == b


def _freeze(v):
    """A deep copy of a JSON structure, checking that it is one."""
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, (PvDict, dict)):
        r = PvDict()
        rt.register(r)
        for kk, x in v.items():
            if not isinstance(kk, str):
                raise Unsupported("JSON key")
            r[kk] = _freeze(x)
        return r
    if isinstance(v, (list, tuple)):
        return PvList(_freeze(x) for x in v)
    if isinstance(v, MsgVal):
        return v
    raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")


def reg_walk(v):
    if isinstance(v, (PvDict, PvList)):
        rt.register(v)
        for x in (v.values() if isinstance(v, PvDict) else v):
            reg_walk(x)


@rt.model(json.loads)
def m_loads(s, **k):
    x = V.sexp(s) if isinstance(s, str) else V.bexpr(s)
    if not is_sym(s):
        return _native_json(json.loads(s, **k))
    if V.const_str(x) is not None:
        return _native_json(json.loads(V.const_str(x).encode("latin-1")))
    used("json")
    if V._is(x, "utf8enc") or V._is(x, "utf8dec"):
        x = x.arg(0)
    for r, v in ex().json_reg:
        if z3.eq(r, x):
            v = _freeze(v)
            reg_walk(v)
            return v
    f = ex().data.get("json_loads")
    if f is not None:
        return f(x)
    raise Unsupported("json.loads of arbitrary text " + str(x)[:200])


def _native_json(v):
    if isinstance(v, dict):
        r = PvDict({k: _native_json(x) for k, x in v.items()})
        rt.register(r)
        return r
    if isinstance(v, list):
        r = PvList(_native_json(x) for x in v)
        rt.register(r)
        return r
    return v


# ------------------------------------------------------------ split
class AbstractSplit(SplitSeq):
    pass


def _count_occ(e, sep):
    pass


SPLIT_BOUND = 3


def split_model(t, sep, maxsplit):
    """str.split(sep, maxsplit).

    With maxsplit == 1: exact.  Otherwise the result is explored for up to SPLIT_BOUND parts
    exactly, and for more parts as the exact first parts followed by an arbitrary rest
    (the loop over them is a loop over an environment sequence of separator-free parts)."""
    if sep is None:
        raise Unsupported("split on whitespace")
    x = t._x(sep) if not isinstance(t, PvByteArray) else V.bexpr(sep)
    if x is None:
        raise TypeError("separator type")
    mk = t._mk if not isinstance(t, PvByteArray) else (lambda e: V.mkbytes(e))
    if z3.is_const(t.e) and maxsplit == -1:
        # a text the target describes by its parts
        f = ex().data.get("splits", {}).get((t.e.decl().name(), V.const_str(x)))
        if f is not None:
            return f()
    c = V.const_str(x)
    if c is not None and maxsplit in (1, -1):
        out, rest = [], t.e
        while rest is not None:
            r = V.cut_at(rest, c)
            if r is None:
                out = None
                break
            out.append(mk(r[0]))
            rest = r[1]
            if maxsplit == 1 and rest is not None and len(out) == 1:
                out.append(mk(rest))
                break
        if out is not None:
            out = PvList(out)
            rt.register(out)
            return out
    if maxsplit == 1:
        if ex().branch(z3.Contains(t.e, x)):
            i = z3.IndexOf(t.e, x, 0)
            r = PvList([mk(V.simp(z3.SubString(t.e, 0, i))),
                        mk(V.simp(z3.SubString(t.e, i + V.slen(x), V.slen(t.e) - i - V.slen(x))))])
        else:
            r = PvList([mk(t.e)])
        rt.register(r)
        return r
    if maxsplit != -1:
        raise Unsupported("split with a maximum")
    return SplitIter(t.e, x, mk)


class SplitIter(SplitSeq, Ghost):
    """The parts of e split at sep, as a sequence walked by a loop.

    The ghost `pos` is the part of the text not yet delivered."""

    _pv_env_iter = True
    _terms = ()

    def __init__(self, e, sep, mk):
        object.__setattr__(self, "src", e)
        object.__setattr__(self, "sep", sep)
        object.__setattr__(self, "mk", mk)
        self.rest = SymStr(e)
        self.done = False

    def __iter__(self):
        r = SplitIter(self.src, self.sep, self.mk)
        return r

    def __next__(self):
        if self.done is True:
            raise StopIteration
        e = V.sexp(self.rest)
        if ex().branch(z3.Contains(e, self.sep)):
            i = z3.IndexOf(e, self.sep, 0)
            p = V.simp(z3.SubString(e, 0, i))
            self.rest = V.mkstr(V.simp(z3.SubString(e, i + V.slen(self.sep), V.slen(e) - i - V.slen(self.sep))))
            return self.mk(p)
        self.done = True
        self.rest = ""
        return self.mk(e)

    def join(self, sep):
        raise Unsupported("join of a split")

    def unpack(self, n):
        xs = []
        it = iter(self)
        while len(xs) <= n:
            try:
                xs.append(next(it))
            except StopIteration:
                break
        if len(xs) != n:
            raise ValueError("unpack")
        return tuple(xs)

    def __getitem__(self, i):
        if not isinstance(i, int) or i < 0 or i > 4:
            raise Unsupported("index of a split")
        it = iter(self)
        for _ in range(i):
            try:
                next(it)
            except StopIteration:
                raise IndexError("list index out of range") from None
        try:
            return next(it)
        except StopIteration:
            raise IndexError("list index out of range") from None


# ------------------------------------------------------------ misc library
class StatusProxy:
    __slots__ = ("value", "phrase")

    def __init__(self, value, phrase):
        self.value, self.phrase = value, phrase

    def __eq__(self, o):
        return rt.eq(self.value, o.value if isinstance(o, (StatusProxy, http.HTTPStatus)) else o)

    __hash__ = None


@rt.model(http.HTTPStatus)
def m_httpstatus(v):
    if not is_sym(v):
        return http.HTTPStatus(v)
    known = sorted(int(s) for s in http.HTTPStatus)
    if ex().branch(z3.Or(*[v.e == n for n in known])):
        return StatusProxy(v, V.SymStr(uf("http_phrase", I, S)(v.e)))
    raise ValueError("not a valid HTTPStatus")


def enum_by_value(cls, v):
    for m in cls:
        if rt.truth(rt.eq(v, m.value)):
            return m
    raise ValueError(f"not a valid {cls.__name__}")


rt.enum_by_value = enum_by_value


class Clock:
    pass


@rt.model(time.monotonic)
def m_monotonic():
    e = ex()
    last = e.data.get("clock")
    t = e.fresh("t", R)
    fact(t >= (last if last is not None else 0))
    e.data["clock"] = t
    e.data.setdefault("clocks", []).append(t)
    used("real")
    return SymReal(t)


@rt.model(time.perf_counter)
def m_perf():
    return m_monotonic()


@rt.model(time.time)
def m_time():
    return m_monotonic()


@rt.model(functools.partial)
def m_partial(*a, **k):
    return functools.partial(*a, **k)


@rt.model(dataclasses.replace)
def m_replace(o, **k):
    cur = {f.name: getattr(o, f.name) for f in dataclasses.fields(o) if f.init}
    cur.update(k)
    return rt.call(type(o), **cur)


@rt.model(typing.cast)
def m_cast(t, v):
    return v


@rt.model(inspect.isasyncgen)
def m_isasyncgen(x):
    if isinstance(x, Ghost):
        return bool(getattr(x, "_pv_isasyncgen", False))
    return inspect.isasyncgen(x)


@rt.model(contextlib.suppress)
def m_suppress(*t):
    return contextlib.suppress(*t)


@rt.model(asyncio.sleep)
def m_sleep(t, result=None):
    used("asyncio")

    async def s():
        h = ex().data.get("on_sleep")
        if h is not None:
            h()
        return result

    return s()


@rt.model(asyncio.wait_for)
def m_wait_for(aw, timeout):
    used("asyncio")

    async def w():
        h = ex().data.get("on_wait_for")
        if h is not None:
            h(aw, timeout)
        if timeout is None:
            return await aw
        if ex().choice(2, "wait_for") == 1:
            close = getattr(aw, "close", None)
            if close:
                close()
            raise TimeoutError
        return await aw

    return w()


class TimeoutCM:
    def __init__(self, t):
        self.t = t

    async def __aenter__(self):
        h = ex().data.get("on_timeout")
        if h is not None:
            h(self.t)
        return self

    async def __aexit__(self, t, v, tb):
        # an expired deadline cancels the body and turns the cancellation into TimeoutError
        if self.t is not None and t is not None and issubclass(t, asyncio.CancelledError) and getattr(v, "_pv_deadline", False):
            raise TimeoutError from v
        return None


@rt.model(asyncio.timeout)
def m_timeout(t):
    used("asyncio")
    return TimeoutCM(t)


class EventStub(Ghost):
    def __init__(self):
        self.state = False

    def is_set(self):
        # another task may set the event at any time
        if self.state is True:
            return True
        f = ex().data.get("event_may_set", True)
        if f and ex().choice(2, "event_set") == 1:
            self.state = True
            return True
        return False

    def set(self):
        self.state = True

    def clear(self):
        self.state = False


@rt.model(asyncio.Event)
def m_event():
    return EventStub()


class TaskStub(Ghost):
    _pv_task = True

    def __init__(self, coro):
        object.__setattr__(self, "coro", coro)
        self.cancelled_ = False
        self.awaited = False

    def cancel(self, *a):
        self.cancelled_ = True
        return True

    def done(self):
        return ex().choice(2, "task_done") == 1

    def __await__(self):
        self.awaited = True
        f = ex().data.get("await_task")
        self.coro.close()
        if f is not None:
            f(self)
        k = ex().choice(2, "task_result")
        if k == 1 and self.cancelled_ is True:
            raise asyncio.CancelledError
        if False:
            yield
        return None


@rt.model(asyncio.create_task)
def m_create_task(coro, **k):
    used("asyncio")
    t = TaskStub(coro)
    ex().data.setdefault("tasks", []).append(t)
    return t


# gzip etc. as uninterpreted pairs, so that the compression classes can be under contract
def comp_pair(name):
    def c(data, *a, **k):
        used("gzip")
        x = V.bexpr(data)
        return SymBytes(compress_e(name, x))

    def d(data, *a, **k):
        used("gzip")
        x = V.bexpr(data)
        return decompress_e(name, x)

    return c, d


def compress_e(name, x):
    return uf(f"compress_{name}", S, S)(x)


def decompress_e(name, x):
    if V._is(x, f"compress_{name}"):
        return V.mkbytes(x.arg(0))
    if ex().branch(uf(f"is_{name}", S, B)(x)):
        return SymBytes(uf(f"decompress_{name}", S, S)(x))
    raise ValueError(f"not {name} data")


def install_gzip():
    import gzip

    c, d = comp_pair("gzip")
    rt.model(gzip.compress)(lambda data, *a, **k: c(data) if is_sym(data) else gzip.compress(data, *a, **k))
    rt.model(gzip.decompress)(lambda data: d(data) if is_sym(data) else gzip.decompress(data))


install_gzip()
