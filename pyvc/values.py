"""Symbolic values.

Strings and byte strings are z3 strings (a byte is a character below 256), integers are
mathematical integers (as in Python), floats that depend on symbolic data are reals.
Library functions without a theory (character case, UTF-8, base64, URL quoting, compression,
codecs, JSON) are uninterpreted functions; the facts assumed about them are the rewrites and
axioms in this file and in models.py and are listed in the evidence as assumptions.
"""
from __future__ import annotations

from fractions import Fraction

import z3

from . import core
from .core import PathEnd, Unsupported, ex, uf, Msg

S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()


# ----------------------------------------------------------------- helpers
def sval(s):
    """z3 string literal of a Python str."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def bval(b):
    return sval(bytes(b).decode("latin-1"))


def const_str(e):
    """Python str when e is a literal, else None."""
    if z3.is_string_value(e):
        return core.z3str(e)
    return None


def simp(e):
    return z3.simplify(e)


def parts(e):
    """Flatten a concatenation."""
    if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
        out = []
        for c in e.children():
            out += parts(c)
        return out
    return [e]


def concat(*es):
    flat = []
    for e in es:
        for p in parts(e):
            c = const_str(p)
            if c == "":
                continue
            if c is not None and flat and const_str(flat[-1]) is not None:
                flat[-1] = sval(const_str(flat[-1]) + c)
            else:
                flat.append(p)
    if not flat:
        return z3.StringVal("")
    if len(flat) == 1:
        return flat[0]
    return z3.Concat(*flat)


def memo(key, build):
    d = ex().data.setdefault("memo", {})
    k = (key[0],) + tuple(x.get_id() if z3.is_expr(x) else x for x in key[1:])
    if k not in d:
        # keep the terms alive so that ids stay unique
        ex().keep.append(key)
        d[k] = build()
    return d[k]


def fact(c):
    e = ex()
    if e.dead:
        raise PathEnd
    e.assert_(c)


# ----------------------------------------------------------------- base
class Sym:
    _pv_sym = True

    def __hash__(self):
        raise Unsupported(f"hash of a symbolic {type(self).__name__}")

    def __iter__(self):
        raise Unsupported(f"native iteration over {type(self).__name__}")

    def __repr__(self):
        return f"<{type(self).__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickle")


def is_sym(x):
    return getattr(type(x), "_pv_sym", False)


def deep_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (str, bytes, int, float, bool, type(None)):
        return False
    if isinstance(x, PvDict):
        return x._l is not None or any(deep_sym(v, depth - 1) for v in dict.values(x))
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(v, depth - 1) for v in x)
    if isinstance(x, dict):
        return any(deep_sym(v, depth - 1) for v in x.values())
    if isinstance(x, BaseException):
        return any(deep_sym(v, depth - 1) for v in x.args)
    return False


class SymBool(Sym):
    __slots__ = ("e",)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ex().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return SymBool(self.e if o else z3.Not(self.e))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    __hash__ = Sym.__hash__


def wrapb(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexp(x):
    """z3 Bool of a Python/Sym truth value (no branching)."""
    if isinstance(x, SymBool):
        return x.e
    if type(x) is bool:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


# ----------------------------------------------------------------- numbers
def num(x):
    """(z3 arith expr, is_real) or None"""
    if isinstance(x, SymInt):
        return x.e, False
    if isinstance(x, SymReal):
        return x.e, True
    t = type(x)
    if t is bool:
        return z3.IntVal(int(x)), False
    if t is int:
        return z3.IntVal(x), False
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            return None
        f = Fraction(repr(x))
        return z3.RealVal(str(f)), True
    if isinstance(x, int):
        return z3.IntVal(int(x)), False
    return None


def _arith(op, swap=False):
    def f(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        a, ar = num(self)
        b, br = n
        if swap:
            a, b = b, a
        real = ar or br
        if real:
            if not z3.is_real(a):
                a = z3.ToReal(a)
            if not z3.is_real(b):
                b = z3.ToReal(b)
        if op == "+":
            e = a + b
        elif op == "-":
            e = a - b
        elif op == "*":
            e = a * b
        elif op == "/":
            if not real:
                a, b = z3.ToReal(a), z3.ToReal(b)
                real = True
            if ex().branch(b == 0):
                raise ZeroDivisionError("division by zero")
            e = a / b
        elif op == "//":
            if real:
                raise Unsupported("float //")
            if ex().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if z3.is_int_value(simp(b)) and simp(b).as_long() > 0:
                e = a / b  # z3 div: floor for positive divisors
            else:
                raise Unsupported("// by a non-constant or negative")
        elif op == "%":
            if real:
                raise Unsupported("float %")
            if z3.is_int_value(simp(b)) and simp(b).as_long() > 0:
                e = a % b
            else:
                raise Unsupported("% by a non-constant or negative")
        e = simp(e)
        return SymReal(e) if real else mkint(e)

    return f


def _cmp(op):
    def f(self, o):
        n = num(o)
        if n is None:
            if op == "==":
                return NotImplemented
            if op == "!=":
                return NotImplemented
            return NotImplemented
        a, ar = num(self)
        b, br = n
        if ar != br:
            if not ar:
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        return wrapb({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])

    return f


class _Num(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __add__ = _arith("+")
    __radd__ = _arith("+", True)
    __sub__ = _arith("-")
    __rsub__ = _arith("-", True)
    __mul__ = _arith("*")
    __rmul__ = _arith("*", True)
    __truediv__ = _arith("/")
    __rtruediv__ = _arith("/", True)
    __floordiv__ = _arith("//")
    __rfloordiv__ = _arith("//", True)
    __mod__ = _arith("%")
    __rmod__ = _arith("%", True)
    __eq__ = _cmp("==")
    __ne__ = _cmp("!=")
    __lt__ = _cmp("<")
    __le__ = _cmp("<=")
    __gt__ = _cmp(">")
    __ge__ = _cmp(">=")
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ex().branch(self.e != 0)

    def __neg__(self):
        return type(self)(simp(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(simp(z3.If(self.e >= 0, self.e, -self.e)))


class SymInt(_Num):
    __slots__ = ()
    __class__ = property(lambda self: int)

    def _bits(self, m):
        # exact for the low bits of a non-negative integer
        if not ex().branch(self.e >= 0):
            raise Unsupported("bit operation on a negative integer")
        out = z3.IntVal(0)
        b = 1
        while b <= m:
            if m & b:
                out = out + ((self.e / b) % 2) * b
            b <<= 1
        return out

    def __and__(self, o):
        if type(o) is int and o >= 0:
            return mkint(simp(self._bits(o)))
        raise Unsupported("& of symbolic integers")

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int and o >= 0:
            return mkint(simp(self.e + o - self._bits(o)))
        raise Unsupported("| of symbolic integers")

    __ror__ = __or__

    def __index__(self):
        v = const_int(self.e)
        if v is None:
            raise Unsupported("symbolic integer used natively")
        return v

    def __int__(self):
        return self.__index__()

    def to_bytes(self, n=1, byteorder="big"):
        if n == 4 and byteorder == "big":
            if ex().branch(z3.Or(self.e < 0, self.e >= 2**32)):
                raise OverflowError("int too big to convert")
            return SymBytes(enc32(self.e))
        raise Unsupported("int.to_bytes")


class SymReal(_Num):
    __slots__ = ()
    __class__ = property(lambda self: float)


def const_int(e):
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else None


def mkint(e):
    v = const_int(e)
    return v if v is not None else SymInt(e)


def mkstr(e):
    c = const_str(e)
    return c if c is not None else SymStr(e)


def mkbytes(e):
    c = const_str(e)
    if c is not None:
        return c.encode("latin-1")
    return SymBytes(e)


# ----------------------------------------------------------------- text
def iexp(x):
    if type(x) is SymInt:
        return x.e
    if z3.is_expr(x):
        return x
    return z3.IntVal(int(x))


def sexp(x):
    """z3 string of a str-like value, or None."""
    if isinstance(x, SymStr):
        return x.e
    if type(x) is str:
        return sval(x)
    if isinstance(x, str) and not is_sym(x):
        return sval(str(x))
    return None


def bexpr(x):
    """z3 string of a bytes-like value, or None."""
    if isinstance(x, SymBytes) or isinstance(x, PvByteArray):
        return x.e
    if type(x) in (bytes, bytearray, memoryview):
        return bval(bytes(x))
    return None


def slen(e):
    c = const_str(e)
    if c is not None:
        return z3.IntVal(len(c))
    ps = parts(e)
    if len(ps) > 1:
        return z3.Sum(*[slen(p) for p in ps])
    if z3.is_app(e) and e.decl().name() == "enc32":
        return z3.IntVal(4)
    if is_unit(e):
        return z3.IntVal(1)
    return z3.Length(e)


def is_unit(e):
    """str.from_code(n): always made of an n that is in the range of a byte."""
    return z3.is_app(e) and e.decl().name() == "str.from_code"


def _nonneg(e):
    """Is e evidently not negative."""
    c = const_int(e)
    if c is not None:
        return c >= 0
    if z3.is_app_of(e, z3.Z3_OP_SEQ_LENGTH):
        return True
    if z3.is_add(e) or z3.is_mul(e):
        return all(_nonneg(x) for x in e.children())
    return z3.is_app(e) and e.decl().name() == "be32"


def _norm_index(i, n):
    """Python index normalisation for slices, without branching on the common cases."""
    if i is None:
        return None
    if type(i) is int:
        if i >= 0:
            return z3.IntVal(i)
        return z3.If(n + i >= 0, n + i, z3.IntVal(0))
    e = iexp(i)
    if _nonneg(simp(e)):
        return e
    return z3.If(e >= 0, e, z3.If(n + e >= 0, n + e, z3.IntVal(0)))


def do_slice(e, sl):
    if sl.step is not None:
        raise Unsupported("slice step")
    # structural cases: what is cut off is constant, or bounds fall on part boundaries
    r = _const_slice(e, sl)
    if r is not None:
        return r
    n = slen(e)
    lo = _norm_index(sl.start, n)
    hi = _norm_index(sl.stop, n)
    st = _struct_slice(e, lo, hi)
    if st is not None:
        return st
    if lo is None and hi is None:
        return e
    # a symbolic boundary: decide where it falls, so that terms stay small
    if lo is None:
        if isinstance(sl.stop, int) and not is_sym(sl.stop) and sl.stop >= 0:
            return simp(z3.SubString(e, 0, z3.IntVal(sl.stop)))
        return simp(z3.SubString(e, 0, hi))
    if hi is None:
        # SubString clamps: offset beyond the end gives ""
        return simp(z3.SubString(e, lo, n - lo))
    return simp(z3.SubString(e, lo, hi - lo))


def _const_slice(e, sl):
    """e[a:b] for constants a >= 0 and b < 0 (or none) where only constant text is cut off."""
    a, b = sl.start or 0, sl.stop
    if type(a) is not int or not (b is None or type(b) is int) or a < 0 or (b is not None and b >= 0):
        return None
    ps = parts(e)
    while a > 0 and ps:
        c = const_str(ps[0])
        if c is None and is_unit(ps[0]):
            a -= 1
            ps = ps[1:]
            continue
        if c is None:
            return None
        if len(c) > a:
            ps = [sval(c[a:])] + ps[1:]
            a = 0
        else:
            a -= len(c)
            ps = ps[1:]
    b = -(b or 0)
    while b > 0 and ps:
        c = const_str(ps[-1])
        if c is None:
            return None
        if len(c) > b:
            ps = ps[:-1] + [sval(c[:-b])]
            b = 0
        else:
            b -= len(c)
            ps = ps[:-1]
    return concat(*ps) if ps else z3.StringVal("")


def _struct_slice(e, lo, hi):
    ps = parts(e)
    off = z3.IntVal(0)
    bounds = [simp(off)]
    for p in ps:
        off = off + slen(p)
        bounds.append(simp(off))

    def find(x, default):
        if x is None:
            return default
        x = simp(x)
        for k, b in enumerate(bounds):
            if z3.eq(b, x):
                return k
        return None

    a = find(lo, 0)
    b = find(hi, len(ps))
    if a is None or b is None:
        return None
    if b <= a:
        return z3.StringVal("")
    return concat(*ps[a:b])


def do_index(e, i):
    n = slen(e)
    ie = iexp(i) if not (type(i) is int and i < 0) else n + i
    if ex().branch(z3.Or(ie < 0, ie >= n)) if not (type(i) is int and i < 0) else ex().branch(ie < 0):
        if isinstance(i, SymInt):
            raise Unsupported("symbolic index out of range")
        raise IndexError("index out of range")
    # structural
    ps = parts(e)
    if type(i) is int and i < 0:
        c = const_str(ps[-1])
        if c is not None and -i <= len(c):
            return sval(c[i])
    if type(i) is int and i >= 0:
        c = const_str(ps[0])
        if c is not None and i < len(c):
            return sval(c[i])
        if i == 0 and is_unit(ps[0]):
            return ps[0]
    return simp(z3.SubString(e, ie, 1))


def _is(x, name):
    return z3.is_app(x) and x.decl().name() == name


F_lower = lambda: uf("lower", S, S)


def lower_e(e):
    c = const_str(e)
    if c is not None:
        return sval(c.lower())
    ps = parts(e)
    if len(ps) > 1:
        return concat(*[lower_e(p) for p in ps])
    if _is(e, "lower"):
        return e
    if e.num_args() == 0 and e.decl().name() in ex().data.setdefault("lowered", set()):
        return e
    lo = ex().data.get("lower_of", {}).get(e.decl().name()) if e.num_args() == 0 else None
    if lo is not None:
        return lo
    r = uf("lower", S, S)(e)

    def ax():
        # length is preserved (assumed: header names and content types are ASCII)
        fact(z3.Length(r) == z3.Length(e))
        return True

    memo(("lower", e), ax)
    return r


def enc_e(e):
    """UTF-8 encoding."""
    c = const_str(e)
    if c is not None:
        return bval(c.encode("utf-8"))
    ps = parts(e)
    if len(ps) > 1:
        return concat(*[enc_e(p) for p in ps])
    if _is(e, "utf8dec"):
        return e.arg(0)
    if _is(e, "int2s") or z3.is_app_of(e, z3.Z3_OP_INT_TO_STR):
        return e
    r = uf("utf8enc", S, S)(e)

    def ax():
        fact((z3.Length(r) == 0) == (z3.Length(e) == 0))
        fact(z3.Length(r) >= z3.Length(e))
        fact(uf("utf8dec", S, S)(r) == e)
        return True

    memo(("enc", e), ax)
    return r


def ascii_bytes(e):
    """Is every part a result whose bytes are ASCII text?"""
    return all(
        const_str(p) is not None and const_str(p).isascii() or _is(p, "b64") or _is(p, "ub64") or _is(p, "b64np")
        or z3.is_app_of(p, z3.Z3_OP_INT_TO_STR)
        for p in parts(e)
    )


def dec_e(e):
    """UTF-8 decoding: (condition under which it succeeds, text)."""
    ps = parts(e)
    outs = []
    ok = []
    for p in ps:
        c = const_str(p)
        if c is not None:
            try:
                outs.append(sval(c.encode("latin-1").decode("utf-8")))
                continue
            except UnicodeDecodeError:
                if len(ps) == 1:
                    return z3.BoolVal(False), p
                return None
        if _is(p, "utf8enc"):
            outs.append(p.arg(0))
            continue
        if ascii_bytes(p):
            outs.append(p)
            continue
        if len(ps) == 1:
            r = uf("utf8dec", S, S)(p)
            okp = uf("is_utf8", S, B)(p)

            def ax():
                fact((z3.Length(r) == 0) == (z3.Length(p) == 0))
                fact(z3.Implies(okp, uf("utf8enc", S, S)(r) == p))
                return True

            memo(("dec", p), ax)
            return okp, r
        return None
    return z3.BoolVal(True), concat(*outs)


WS = " \t\n\r\x0b\x0c"


# what the results of some functions are made of, apart from letters and digits
SAFE_OUTPUT = {"b64": "+/=", "ub64": "-_=", "b64np": "+/", "quote": "%-_.~"}


def is_free(p, chars):
    """Is a term known to contain none of the characters."""
    c = const_str(p)
    if c is not None:
        return not any(x in c for x in chars)
    if not z3.is_app(p):
        return False
    if p.num_args() > 1:
        return z3.is_app_of(p, z3.Z3_OP_SEQ_CONCAT) and all(is_free(x, chars) for x in parts(p))
    if p.num_args() == 1:
        k = p.decl().name()
        if k in ("utf8enc", "utf8dec", "lower"):
            return all(ord(x) < 128 and not x.isalpha() for x in chars) and is_free(p.arg(0), chars)
        if k.startswith("quote_"):
            return not any(x.isalnum() or x in SAFE_OUTPUT["quote"] or x in k[6:] for x in chars)
        if k in SAFE_OUTPUT:
            return not any(x.isalnum() or x in SAFE_OUTPUT[k] for x in chars)
        return z3.is_app_of(p, z3.Z3_OP_INT_TO_STR) and not any(x.isdigit() or x == "-" for x in chars)
    if p.num_args() == 0:
        f = ex().data.get("free", {}).get(p.decl().name())
        return f is not None and set(chars) <= f
    return False


def cut_at(e, sep):
    """(before, after) the first sep, when the structure of e tells; (e, None) without one."""
    ps = parts(e)
    for n, p in enumerate(ps):
        if is_free(p, sep):
            continue
        c = const_str(p)
        if c is None or sep not in c:
            return None
        a, _, b = c.partition(sep)
        return concat(*ps[:n], sval(a)), concat(sval(b), *ps[n + 1:])
    return e, None


def trimmed(e):
    """Is a term known to have no white space at its ends."""
    while z3.is_app(e) and e.num_args() == 1 and e.decl().name() in ("utf8enc", "utf8dec"):
        e = e.arg(0)
    return z3.is_const(e) and e.decl().name() in ex().data.get("trimmed", ())


def strip_e(e, chars, left=True, right=True):
    c = const_str(e)
    if c is not None:
        k = chars if chars is not None else None
        s = c
        if left:
            s = s.lstrip(k)
        if right:
            s = s.rstrip(k)
        return sval(s)
    if all(is_free(p, chars if chars is not None else WS) for p in parts(e)):
        return e
    k = chars if chars is not None else WS
    ps = list(parts(e))
    while left and ps and const_str(ps[0]) is not None:
        c = const_str(ps[0]).lstrip(k)
        if c:
            ps[0] = sval(c)
            break
        ps.pop(0)
    while right and ps and const_str(ps[-1]) is not None:
        c = const_str(ps[-1]).rstrip(k)
        if c:
            ps[-1] = sval(c)
            break
        ps.pop()
    e = concat(*ps) if ps else sval("")
    if all(is_free(p, k) for p in ps):
        return e
    if len(ps) == 1 and trimmed(ps[0]) and set(k) <= set(WS):
        return e
    key = ("strip", e, chars, left, right)

    def build():
        exx = ex()
        r = uf(f"strip_{'l' if left else ''}{'r' if right else ''}_{(chars if chars is not None else 'ws')!r}", S, S)(e)
        a = exx.fresh("strip_a", S) if left else z3.StringVal("")
        b = exx.fresh("strip_b", S) if right else z3.StringVal("")
        cs = chars if chars is not None else WS
        cls = z3.Union(*[z3.Re(sval(ch)) for ch in cs]) if len(cs) > 1 else z3.Re(sval(cs))
        fact(e == z3.Concat(a, r, b))
        if left:
            fact(z3.InRe(a, z3.Star(cls)))
            fact(z3.Not(z3.InRe(z3.SubString(r, 0, 1), cls)))
        if right:
            fact(z3.InRe(b, z3.Star(cls)))
            fact(z3.Not(z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), cls)))
        return r

    return memo(key, build)


class _Text(Sym):
    """Operations shared by str and bytes."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # subclass hooks: _x (to z3), _mk (from z3)
    def __len__(self):
        raise Unsupported("native len of symbolic text")

    def __bool__(self):
        return ex().branch(slen(self.e) != 0)

    def __eq__(self, o):
        x = self._x(o)
        if x is None:
            return False
        c = const_str(x)
        if c is not None:
            if never_equal(self.e, c):
                return False
            if z3.is_const(self.e):
                lower_fact(self.e, c, lambda a, b: a == b)
            elif z3.is_app_of(self.e, z3.Z3_OP_SEQ_EXTRACT) and z3.is_const(self.e.arg(0)):
                # a piece of the lower-case form is the lower-case form of the piece
                y = ex().data.get("lower_of", {}).get(self.e.arg(0).decl().name())
                if y is not None and c.isascii():
                    fact(z3.Implies(self.e == sval(c), z3.substitute(self.e, (self.e.arg(0), y)) == sval(c.lower())))
        return wrapb(self.e == x)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else wrapb(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def _order(f):
        def op(self, o):
            x = self._x(o)
            if x is None:
                return NotImplemented
            return wrapb(f(self.e, x))
        return op

    __lt__ = _order(lambda a, b: z3.StrLT(a, b) if hasattr(z3, "StrLT") else a < b)
    __gt__ = _order(lambda a, b: b < a)
    __le__ = _order(lambda a, b: a <= b)
    __ge__ = _order(lambda a, b: b <= a)

    def __add__(self, o):
        x = self._x(o)
        if x is None:
            return NotImplemented
        return self._mk(concat(self.e, x))

    def __radd__(self, o):
        x = self._x(o)
        if x is None:
            return NotImplemented
        return self._mk(concat(x, self.e))

    def __mul__(self, o):
        raise Unsupported("text repetition")

    def __mod__(self, o):
        raise Unsupported("text % formatting")

    def __contains__(self, o):
        raise Unsupported("native `in` on symbolic text")

    def pv_contains(self, o):
        x = self._x(o)
        if x is None:
            raise TypeError("a text argument is required")
        return wrapb(z3.Contains(self.e, x))

    def pv_len(self):
        return mkint(simp(slen(self.e)))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q):
                    return True
            return False
        return wrapb(prefix_e(self._x(p), self.e))

    def endswith(self, p):
        if isinstance(p, tuple):
            for q in p:
                if self.endswith(q):
                    return True
            return False
        x = self._x(p)
        return wrapb(z3.SuffixOf(x, self.e))

    def removeprefix(self, p):
        x = self._x(p)
        if ex().branch(prefix_e(x, self.e)):
            return self._mk(cut_prefix(self.e, x))
        return self

    def removesuffix(self, p):
        x = self._x(p)
        if ex().branch(z3.SuffixOf(x, self.e)):
            return self._mk(simp(z3.SubString(self.e, 0, slen(self.e) - slen(x))))
        return self

    def find(self, p):
        return mkint(simp(z3.IndexOf(self.e, self._x(p), 0)))

    def partition(self, sep):
        x = self._x(sep)
        c = const_str(x)
        r = cut_at(self.e, c) if c else None
        if r is not None:
            if r[1] is None:
                return (self, self._empty(), self._empty())
            return (self._mk(r[0]), sep, self._mk(r[1]))
        if ex().branch(z3.Contains(self.e, x)):
            i = z3.IndexOf(self.e, x, 0)
            return (
                self._mk(simp(z3.SubString(self.e, 0, i))),
                sep,
                self._mk(simp(z3.SubString(self.e, i + slen(x), slen(self.e) - i - slen(x)))),
            )
        return (self, self._empty(), self._empty())

    def rpartition(self, sep):
        x = self._x(sep)
        if ex().branch(z3.Contains(self.e, x)):
            i = z3.LastIndexOf(self.e, x)
            return (
                self._mk(simp(z3.SubString(self.e, 0, i))),
                sep,
                self._mk(simp(z3.SubString(self.e, i + slen(x), slen(self.e) - i - slen(x)))),
            )
        return (self._empty(), self._empty(), self)

    def _chars(self, c):
        if c is None:
            return None
        x = const_str(self._x(c))
        if x is None:
            raise Unsupported("strip with symbolic characters")
        return x

    def strip(self, c=None):
        return self._mk(strip_e(self.e, self._chars(c)))

    def lstrip(self, c=None):
        return self._mk(strip_e(self.e, self._chars(c), right=False))

    def rstrip(self, c=None):
        ch = self._chars(c)
        # base64 padding: rstrip("=") of a base64 text is its unpadded form
        if ch == "=" and _is(self.e, "b64"):
            r, x = uf("b64np", S, S)(self.e.arg(0)), self.e.arg(0)

            def ax():
                fact((z3.Length(r) == 0) == (z3.Length(x) == 0))
                fact(z3.Length(r) >= z3.Length(x))
                return True

            memo(("b64np", x), ax)
            return self._mk(r)
        return self._mk(strip_e(self.e, ch, left=False))

    def lower(self):
        return self._mk(lower_e(self.e))

    def upper(self):
        return self._mk(uf("upper", S, S)(self.e))

    def replace(self, a, b, *n):
        if n:
            raise Unsupported("replace with count")
        return self._mk(uf("replace_all", S, S, S, S)(self.e, self._x(a), self._x(b)))

    def split(self, sep=None, maxsplit=-1):
        from .models import split_model

        return split_model(self, sep, maxsplit)

    def splitlines(self, *a):
        raise Unsupported("splitlines")

    def join(self, it):
        raise Unsupported("symbolic separator")

    def isdigit(self):
        d = z3.Range("0", "9")
        if ex().branch(z3.InRe(self.e, z3.Plus(d))):
            return True
        return wrapb(uf("isdigit_other", S, B)(self.e))

    isdecimal = isdigit

    def count(self, x):
        raise Unsupported("count")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(do_slice(self.e, i))
        return self._item(do_index(self.e, i))


def prefix_e(p, e):
    """p is a prefix of e, decided structurally when possible."""
    if p is None:
        raise TypeError("prefix of the wrong type")
    c = const_str(p)
    if c is not None:
        first = const_str(parts(e)[0])
        if first is not None:
            if len(first) >= len(c):
                return z3.BoolVal(first.startswith(c))
            if not c.startswith(first):
                return z3.BoolVal(False)
        ps = parts(e)
        if first is None and len(ps) > 1:
            nxt = const_str(ps[1])
            if nxt and nxt[0] not in c:
                # p does not reach into what follows
                e = ps[0]
        if first is None:
            lower_fact(e, c, z3.PrefixOf)
    return z3.PrefixOf(p, e)


def lower_fact(x, c, rel):
    """What rel(c, x) says of x's lower-case form."""
    if z3.is_const(x):
        y = ex().data.get("lower_of", {}).get(x.decl().name())
        if y is not None and c.isascii():
            fact(z3.Implies(rel(sval(c), x), rel(sval(c.lower()), y)))


def never_equal(e, c):
    """A constant part of e has a character that c has not."""
    return any(k is not None and any(ch not in c for ch in k) for k in (const_str(p) for p in parts(e)))


def cut_prefix(e, p):
    c = const_str(p)
    ps = parts(e)
    f = const_str(ps[0])
    if c is not None and f is not None and f.startswith(c):
        return concat(sval(f[len(c):]), *ps[1:])
    return simp(z3.SubString(e, slen(p), slen(e) - slen(p)))


class SymStr(_Text):
    __slots__ = ()
    __class__ = property(lambda self: str)
    _x = staticmethod(sexp)
    _mk = staticmethod(mkstr)
    _empty = staticmethod(lambda: "")
    _item = staticmethod(mkstr)

    def encode(self, enc="utf-8", errors="strict"):
        e = enc.lower().replace("_", "-")
        if e in ("utf-8", "utf8"):
            return mkbytes(enc_e(self.e))
        if e in ("ascii", "latin-1"):
            if ascii_bytes(self.e):
                return mkbytes(self.e)
            if ex().branch(uf("is_" + e.replace("-", ""), S, B)(self.e)):
                return mkbytes(enc_e(self.e))
            raise UnicodeEncodeError(e, "", 0, 1, "not encodable")
        raise Unsupported("encode " + enc)

    def format(self, *a, **k):
        raise Unsupported("format")

    def casefold(self):
        return self.lower()

    def title(self):
        return mkstr(uf("title", S, S)(self.e))


class SymBytes(_Text):
    __slots__ = ()
    __class__ = property(lambda self: bytes)
    _x = staticmethod(bexpr)
    _mk = staticmethod(mkbytes)
    _empty = staticmethod(lambda: b"")

    @staticmethod
    def _item(e):
        return mkint(byte_of(e))

    def decode(self, enc="utf-8", errors="strict"):
        return decode_model(self.e, enc, errors)

    def __bytes__(self):
        raise Unsupported("native bytes() of symbolic bytes")

    def hex(self):
        raise Unsupported("hex")


def decode_model(e, enc, errors):
    n = enc.lower().replace("_", "-")
    if n in ("ascii", "us-ascii") and ascii_bytes(e):
        return mkstr(e)
    if n not in ("utf-8", "utf8", "ascii", "us-ascii"):
        raise Unsupported("decode " + enc)
    r = dec_e(e)
    if r is None:
        ok, t = uf("is_utf8", S, B)(e), uf("utf8dec", S, S)(e)
    else:
        ok, t = r
    if n in ("ascii", "us-ascii"):
        ok = z3.And(ok, uf("is_ascii", S, B)(e))
    if errors != "strict":
        if ex().branch(ok):
            return mkstr(t)
        return mkstr(ex().fresh("dec_lossy", S))
    if ex().branch(ok):
        return mkstr(t)
    raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid start byte")


def byte_of(e):
    c = const_str(e)
    if c is not None:
        return z3.IntVal(ord(c))
    if is_unit(e):
        return e.arg(0)
    r = z3.StrToCode(e)

    def ax():
        fact(z3.And(r >= 0, r < 256))
        return True

    memo(("byte", e), ax)
    return r


# big-endian 32 bit integers
def enc32(n):
    v = const_int(n)
    if v is not None:
        return bval(v.to_bytes(4, "big"))
    if _is(n, "be32"):
        a = n.arg(0)
    r = uf("enc32", I, S)(n)

    def ax():
        fact(z3.Length(r) == 4)
        fact(z3.Implies(z3.And(n >= 0, n < 2**32), uf("be32", S, I)(r) == n))
        return True

    memo(("enc32", n), ax)
    return r


def be32(e):
    c = const_str(e)
    if c is not None:
        return z3.IntVal(int.from_bytes(c.encode("latin-1"), "big"))
    if _is(e, "enc32"):
        n = e.arg(0)
        # valid for 0 <= n < 2**32, which struct.pack has established
        return n
    r = uf("be32", S, I)(e)

    def ax():
        fact(z3.And(r >= 0, r < 2**32))
        fact(z3.Implies(z3.Length(e) == 4, uf("enc32", I, S)(r) == e))
        return True

    memo(("be32", e), ax)
    return r


class PvByteArray(Sym):
    """bytearray"""

    __slots__ = ("e",)
    __class__ = property(lambda self: bytearray)

    def __init__(self, e):
        from .runtime import rt

        self.e = e
        rt.register(self)

    def _w(self, e):
        from .runtime import rt

        rt.track(self, "contents")
        self.e = e

    def extend(self, data):
        x = bexpr(data)
        if x is None:
            raise Unsupported("bytearray.extend of a non-bytes value")
        self._w(concat(self.e, x))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, b):
        n = iexp(b)
        if ex().branch(z3.Or(n < 0, n > 255)):
            raise ValueError("byte must be in range(0, 256)")
        self._w(concat(self.e, simp(z3.StrFromCode(n))))

    def clear(self):
        self._w(z3.StringVal(""))

    def copy(self):
        return PvByteArray(self.e)

    def __bool__(self):
        return ex().branch(slen(self.e) != 0)

    def pv_len(self):
        return mkint(simp(slen(self.e)))

    def __len__(self):
        raise Unsupported("native len of bytearray")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return PvByteArray(do_slice(self.e, i))
        return mkint(byte_of(do_index(self.e, i)))

    def __delitem__(self, i):
        if not isinstance(i, slice) or i.step is not None:
            raise Unsupported("del of a bytearray item")
        n = slen(self.e)
        lo = _norm_index(i.start, n)
        hi = _norm_index(i.stop, n)
        a = z3.StringVal("") if lo is None else do_slice(self.e, slice(None, i.start))
        b = z3.StringVal("") if hi is None else do_slice(self.e, slice(i.stop, None))
        self._w(concat(a, b))

    def __setitem__(self, i, v):
        raise Unsupported("bytearray item assignment")

    def __eq__(self, o):
        x = bexpr(o)
        if x is None:
            return False
        return wrapb(self.e == x)

    def __ne__(self, o):
        x = bexpr(o)
        if x is None:
            return True
        return wrapb(self.e != x)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        x = bexpr(o)
        if x is None:
            return NotImplemented
        return PvByteArray(concat(self.e, x))

    def __radd__(self, o):
        x = bexpr(o)
        if x is None:
            return NotImplemented
        return mkbytes(concat(x, self.e))

    def decode(self, enc="utf-8", errors="strict"):
        return decode_model(self.e, enc, errors)

    def split(self, sep=None, maxsplit=-1):
        from .models import split_model

        return split_model(self, sep, maxsplit)

    def startswith(self, p):
        return wrapb(prefix_e(bexpr(p), self.e))

    def strip(self, c=None):
        return PvByteArray(strip_e(self.e, None if c is None else const_str(bexpr(c))))

    def __bytes__(self):
        raise Unsupported("native bytes() of a bytearray")


# ----------------------------------------------------------------- messages
class MsgVal(Sym):
    """An RPC message: an opaque value, which may be falsy."""

    __slots__ = ("e", "cls")

    def __init__(self, e, cls=None):
        self.e = e
        self.cls = cls

    def __bool__(self):
        return ex().branch(uf("msg_truthy", Msg, B)(self.e))

    def __eq__(self, o):
        if isinstance(o, MsgVal):
            return wrapb(self.e == o.e)
        return False

    def __ne__(self, o):
        if isinstance(o, MsgVal):
            return wrapb(self.e != o.e)
        return True

    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an opaque message")


class Poison(Sym):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def _bad(self, *a, **k):
        raise Unsupported("use of a value the loop abstraction lost: " + self.why)

    __bool__ = __eq__ = __ne__ = __add__ = __len__ = __getitem__ = __call__ = _bad
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


# ----------------------------------------------------------------- dict
class PvDict(dict):
    """A dict whose keys may be symbolic.

    With concrete keys only it is an ordinary dict.  The first symbolic key switches it to an
    association list, in which lookups branch on key equality.
    """

    __slots__ = ("_l", "_lazy", "_abs", "_bp", "__weakref__")

    def __init__(self, *a, **k):
        self._l = self._lazy = None
        dict.__init__(self)
        if a or k:
            from .runtime import rt

            rt.register(self)
            self.update(*a, **k)

    def _track(self):
        from .runtime import rt

        rt.track(self, "contents")

    def _sym(self):
        if self._l is None:
            self._l = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, key):
        """index in _l of the entry equal to key, or None"""
        from .runtime import rt

        for i, (k, _) in enumerate(self._l):
            if k is key:
                return i
        for i, (k, _) in enumerate(self._l):
            r = rt.eq(k, key)
            if r is True or (r is not False and bool(r)):
                return i
        return None

    def _lookup(self, key):
        """-> (found, value); key may be symbolic while self is concrete"""
        if self._l is None:
            if not is_sym(key):
                if dict.__contains__(self, key):
                    return True, dict.__getitem__(self, key)
                return False, None
            from .runtime import rt

            for k in list(dict.keys(self)):
                r = rt.eq(key, k)
                if r is True or (r is not False and bool(r)):
                    return True, dict.__getitem__(self, k)
            return False, None
        i = self._find(key)
        if i is None:
            if self._lazy is not None and not self._known_absent(key):
                ok, v = self._lazy(key)
                if ok:
                    self._l.append([key, v])
                    self._bp += 1
                    return True, v
                self._abs.append(key)
            return False, None
        return True, self._l[i][1]

    def _known_absent(self, key):
        from .runtime import rt

        for k in self._abs:
            r = rt.eq(k, key)
            if r is True or (r is not False and bool(r)):
                return True
        return False

    def _present(self, key):
        """An entry that was just added is not absent any more."""
        from .runtime import rt

        self._abs = [k for k in self._abs if not bool(rt.eq(k, key))]

    def __getitem__(self, key):
        ok, v = self._lookup(key)
        if not ok:
            raise KeyError(key)
        return v

    def get(self, key, default=None):
        ok, v = self._lookup(key)
        return v if ok else default

    def __contains__(self, key):
        return self._lookup(key)[0]

    def __setitem__(self, key, value):
        self._track()
        if self._l is None and not is_sym(key):
            dict.__setitem__(self, key, value)
            return
        self._sym()
        if self._lazy is not None:
            self._lookup(key)
        i = self._find(key)
        if i is None:
            self._l.append([key, value])
            if self._lazy is not None:
                self._present(key)
        else:
            self._l[i][1] = value

    def __delitem__(self, key):
        self._track()
        if self._l is None:
            if not is_sym(key):
                dict.__delitem__(self, key)
                return
            self._sym()
        if self._lazy is not None:
            self._lookup(key)
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        del self._l[i]
        if self._lazy is not None:
            self._abs.append(key)

    _missing = object()

    def pop(self, key, default=_missing):
        ok, v = self._lookup(key)
        if not ok:
            if default is PvDict._missing:
                raise KeyError(key)
            return default
        del self[key]
        return v

    def setdefault(self, key, default=None):
        ok, v = self._lookup(key)
        if ok:
            return v
        self[key] = default
        return default

    def update(self, *a, **k):
        for src in a:
            if isinstance(src, dict) or hasattr(src, "keys"):
                for kk in list(src.keys()):
                    self[kk] = src[kk]
            else:
                for kk, vv in src:
                    self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def clear(self):
        self._track()
        self._l = self._lazy = None
        dict.clear(self)

    def copy(self):
        from .runtime import rt

        r = PvDict()
        rt.register(r)
        if self._lazy is not None:
            r._lazy, r._abs, r._bp = self._lazy, list(self._abs), self._bp
        if self._l is not None:
            r._l = [[k, v] for k, v in self._l]
        else:
            dict.update(r, self)
        return r

    __copy__ = copy

    def keys(self):
        self._no_lazy()
        return dict.keys(self) if self._l is None else DView(self, 0)

    def values(self):
        self._no_lazy()
        return dict.values(self) if self._l is None else DView(self, 1)

    def items(self):
        self._no_lazy()
        return dict.items(self) if self._l is None else DView(self, 2)

    def _no_lazy(self):
        if self._lazy is not None:
            raise Unsupported("iteration over an arbitrary dict")

    def pv_len(self):
        if self._lazy is None:
            return len(self)
        return SymInt(simp(self._lazy.size + (len(self._l) - self._bp)))

    def __iter__(self):
        self._no_lazy()
        return dict.__iter__(self) if self._l is None else iter([k for k, _ in self._l])

    def __len__(self):
        self._no_lazy()
        return dict.__len__(self) if self._l is None else len(self._l)

    def __bool__(self):
        if self._lazy is not None:
            return bool(self._l) or ex().branch(self._lazy.size - self._bp > 0)
        return len(self) > 0

    def __eq__(self, o):
        if not isinstance(o, dict) and not is_sym(o):
            return False
        if self._l is None and isinstance(o, dict) and not isinstance(o, PvDict):
            return dict.__eq__(self, o)
        if isinstance(o, PvDict) and self._l is None and o._l is None:
            return dict.__eq__(self, o)
        raise Unsupported("comparison of symbolic dicts")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return f"PvDict({list(self.items())!r})"

    def popitem(self):
        raise Unsupported("popitem")


class LazyBase:
    """The contents of an arbitrary dict: entries are decided when they are looked at."""

    def __init__(self, name, value, allowed=None):
        self.name, self.value, self.allowed = name, value, allowed
        self.seen = []
        self.size = ex().fresh(name + "_size", I)
        self.present = 0
        fact(self.size >= 0)

    def __call__(self, key):
        from .runtime import rt

        for k, r in self.seen:
            if bool(rt.eq(k, key)):
                return r
        ok = (self.allowed is None or self.allowed(key)) and ex().branch(ex().fresh(self.name + "_has", B))
        r = (True, self.value(key)) if ok else (False, None)
        if ok:
            self.present += 1
            fact(self.size >= self.present)
        self.seen.append((key, r))
        return r


def lazy_dict(name, value, allowed=None):
    from .runtime import rt

    d = PvDict()
    d._l, d._abs, d._bp = [], [], 0
    d._lazy = LazyBase(name, value, allowed)
    rt.register(d)
    return d


class DView:
    __slots__ = ("d", "k")
    _pv_view = True

    def __init__(self, d, k):
        self.d, self.k = d, k

    def __iter__(self):
        for k, v in list(self.d._l):
            yield (k, v, (k, v))[self.k]

    def __len__(self):
        return len(self.d._l)

    def __contains__(self, x):
        if self.k == 0:
            return x in self.d
        from .runtime import rt

        for y in self:
            if rt.eq(x, y):
                return True
        return False


def do_index0(e, i=0):
    """The i-th character of e (no bounds check)."""
    ps = parts(e)
    c = const_str(ps[0])
    if c is not None and i < len(c):
        return sval(c[i])
    return simp(z3.SubString(e, i, 1))
