"""What contract targets are written with.

`h` is the harness: in symbolic mode its inputs are symbolic and `check` is a proof
obligation; in concrete mode (replay of a counterexample) inputs are the values the solver
gave, the code under test is the plain, uninstrumented source, and `check` is an assertion.
"""
from __future__ import annotations

import asyncio
import json
import types

try:
    import z3

    from . import core, values as V
    from .core import PathEnd, Unsupported, uf
    from .runtime import Ghost, PvList, rt
    from .values import (MsgVal, PvByteArray, PvDict, S, SymBool, SymBytes, SymInt, SymReal,
                         SymStr, is_sym)

    SYMBOLIC = True
except ImportError:  # concrete replay
    z3 = None
    SYMBOLIC = False

    class Ghost:
        pass


TARGETS = {}


class Target:
    def __init__(self, fn, prop, name, split, opts, replay):
        self.fn, self.prop, self.name, self.split, self.opts, self.replay = fn, prop, name, split, opts, replay


def target(prop, name=None, split=None, replay=False, **opts):
    """split: {label: n} choices explored by separate workers."""

    def deco(fn):
        n = name or fn.__name__
        TARGETS[(prop, n)] = Target(fn, prop, n, split, opts, replay)
        return fn

    return deco


class Cancelled(Exception):
    pass


class ReplayFailure(Exception):
    pass


class Skip(Exception):
    pass


class H:
    """Symbolic mode."""

    symbolic = True

    @property
    def ex(self):
        return core.ex()

    # inputs
    def _in(self, name, kind, term):
        self.ex.inputs.append((name, kind, term))
        return term

    def int(self, name, lo=None, hi=None):
        t = self.ex.fresh(name, V.I)
        self._in(name, "int", t)
        if lo is not None:
            V.fact(t >= lo)
        if hi is not None:
            V.fact(t <= hi)
        return SymInt(t)

    def real(self, name):
        return SymReal(self._in(name, "real", self.ex.fresh(name, V.R)))

    def bool(self, name):
        return SymBool(self._in(name, "bool", self.ex.fresh(name, V.B)))

    def str(self, name):
        return SymStr(self._in(name, "str", self.ex.fresh(name, S)))

    def lower_str(self, name, free=None):
        """A string without upper-case characters; if free is given, without white space and
        the characters of it."""
        t = self._in(name, "str", self.ex.fresh(name, S))
        if free is not None:
            self.ex.data.setdefault("free", {})[t.decl().name()] = set(free) | set(V.WS)
        self.ex.data.setdefault("lowered", set()).add(t.decl().name())
        return SymStr(t)

    def cased(self, name, free=""):
        """(x, y): any string x without white space and without the characters of `free`, and
        its lower-case form y."""
        x = self._in(name, "str", self.ex.fresh(name, S))
        y = self.ex.fresh(name + "_lower", S)
        V.fact(z3.Length(x) == z3.Length(y))
        d = self.ex.data
        for t in (x, y):
            d.setdefault("free", {})[t.decl().name()] = set(free) | set(V.WS)
        d.setdefault("lowered", set()).add(y.decl().name())
        d.setdefault("lower_of", {})[x.decl().name()] = y
        self.ex.inputs.append((name + "_lower", "str", y))
        return SymStr(x), SymStr(y)

    def field(self, name):
        """A value of an HTTP header: without control characters, and without white space at
        its ends."""
        t = self._in(name, "str", self.ex.fresh(name, S))
        d = self.ex.data
        d.setdefault("free", {})[t.decl().name()] = set("\r\n\0")
        d.setdefault("trimmed", set()).add(t.decl().name())
        return SymStr(t)

    def variants(self, name, n=2, free=None):
        """n strings that are equal in lower case."""
        xs = [self._in(f"{name}_{i}", "str", self.ex.fresh(f"{name}_{i}", S)) for i in range(n)]
        y = self.ex.fresh(name, S)
        d = self.ex.data
        if free is not None:
            for x in xs + [y]:
                d.setdefault("free", {})[x.decl().name()] = set(free) | set(V.WS)
        for x in xs:
            V.fact(z3.Length(x) == z3.Length(y))
            d.setdefault("lower_of", {})[x.decl().name()] = y
        d.setdefault("lowered", set()).add(y.decl().name())
        self.ex.inputs.append((name, "str", y))
        return [SymStr(x) for x in xs]

    def bytes(self, name):
        return SymBytes(self._in(name, "bytes", self.ex.fresh(name, S)))

    def msg(self, name, cls=None):
        return MsgVal(self._in(name, "msg", self.ex.fresh(name, core.Msg)), cls)

    def choice(self, label, options):
        options = list(options)
        return options[self.ex.choice(len(options), label)]

    def digits(self, name, maxlen):
        """A non-empty string of at most maxlen decimal digits."""
        t = self._in(name, "str", self.ex.fresh(name, S))
        V.fact(z3.InRe(t, z3.Plus(z3.Range("0", "9"))))
        V.fact(z3.Length(t) <= maxlen)
        V.fact(z3.StrToInt(t) < 10**maxlen)
        V.fact(z3.StrToInt(t) >= 0)
        return SymStr(t)

    def test(self, c):
        """Branch on a condition."""
        return bool(c)

    def pick(self, name, v, options):
        """Which of the options a value is; a failed obligation when it is none of them."""
        for o in options:
            if self.test(self.eq(v, o)):
                return o
        self.fail(f"{name} is one of {options}")

    # logic
    def check(self, name, cond, note=""):
        if isinstance(cond, SymBool):
            cond = cond.e
        elif not isinstance(cond, bool) and not z3.is_expr(cond):
            cond = bool(cond)
        return self.ex.check(name, cond, note)

    def aux(self, name, cond, note=""):
        """An invariant the proof needs: where it fails the proof does not go through, which is
        undecided and not a violation."""
        t, self.ex.taint = self.ex.taint, True
        try:
            return self.ex.check(name, cond.e if isinstance(cond, SymBool) else cond, note or "auxiliary invariant")
        finally:
            self.ex.taint = t

    def fail(self, name, note=""):
        self.ex.fail(name, note)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        self.ex.assume(cond)

    def cover(self, name):
        self.ex.cover(name)

    def eq(self, a, b):
        """Equality without branching (SymBool or bool)."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        return rt.eq(a, b)

    def and_(self, *cs):
        return V.wrapb(z3.And(*[V.bexp(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return V.wrapb(z3.Or(*[V.bexp(c) for c in cs])) if cs else False

    def not_(self, c):
        return rt.not_(c)

    def implies(self, a, b):
        return V.wrapb(z3.Implies(V.bexp(a), V.bexp(b)))

    def len(self, x):
        return rt.call(len, x)

    def cat(self, *xs):
        """Concatenation of byte strings."""
        return V.mkbytes(V.concat(*[V.bexpr(x) for x in xs]))

    def term(self, v):
        """A ghost byte string or text or number, as a value."""
        return v

    def uf(self, name, rng, *args):
        """An uninterpreted function of values. rng: 'str' 'bytes' 'int' 'bool' 'msg'"""
        es = []
        for a in args:
            if isinstance(a, MsgVal):
                es.append(a.e)
            elif isinstance(a, (SymInt, int)) and not isinstance(a, (str, bytes, bool)):
                es.append(V.iexp(a))
            elif isinstance(a, (SymStr, str)):
                es.append(V.sexp(a))
            else:
                es.append(V.bexpr(a))
        sort = {"str": S, "bytes": S, "int": V.I, "bool": V.B, "msg": core.Msg}[rng]
        r = uf(name, *[e.sort() for e in es], sort)(*es)
        return {"str": V.mkstr, "bytes": V.mkbytes, "int": V.mkint, "bool": V.wrapb, "msg": MsgVal}[rng](r)

    # running code
    def call(self, f, *a, **k):
        return rt.call(f, *a, **k)

    def drive(self, coro):
        """Run a coroutine that only awaits stubs."""
        if not hasattr(coro, "send"):
            coro = coro.__await__()
        try:
            coro.send(None)
        except StopIteration as s:
            return s.value
        raise Unsupported("the coroutine suspended on something that is not modelled")

    def outcome(self, f, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try:
            r = rt.call(f, *a, **k)
            if inspect_coro(r):
                r = self.drive(r)
            return "ok", r
        except (Exception, asyncio.CancelledError, GeneratorExit) as e:
            return "exc", e

    def consume(self, it, body, lid="consume"):
        """for x in it: body(x)   -- as a loop the verifier cuts"""
        L = rt.loop(lid, "for", it, False)
        while True:
            rt.head(L, {}, ())
            x = rt.next_(L)
            if x is rt.STOP:
                rt.loop_done(L)
                return
            if body(x) == "break":
                return

    async def aconsume(self, it, body, lid="aconsume"):
        L = rt.loop(lid, "afor", it, False)
        while True:
            rt.head(L, {}, ())
            x = await rt.anext_(L)
            if x is rt.STOP:
                rt.loop_done(L)
                return
            r = body(x)
            if inspect_coro(r):
                r = await r
            if r == "break":
                return

    def repeat(self, body, lid="repeat"):
        """while True: body()  -- cut at its head; body returns 'break' to leave"""
        self.consume(_Forever(), lambda _: body(), lid)

    def new(self, cls, *a, **k):
        return rt.call(cls, *a, **k)

    def list(self, *xs):
        return rt.mklist(list(xs))

    def dict(self, items=()):
        return rt.mkdict(*[(False, k, v) for k, v in items])

    def contract(self, qual, f):
        """Use a contract instead of the body of a function, in this target."""
        self.ex.data.setdefault("contracts_installed", []).append(qual)
        rt.contracts[qual] = f

    def invariant(self, name, fn):
        self.ex.invariants.append((name, fn))


class _Forever:
    _pv_env_iter = True

    def __iter__(self):
        return self

    def __next__(self):
        return 0


def inspect_coro(x):
    return isinstance(x, types.CoroutineType) or (hasattr(x, "send") and hasattr(x, "__await__"))


class CH:
    """Concrete mode: replays solver values against the real code."""

    symbolic = False

    def __init__(self, values, choices, only=None):
        self.values, self.choices, self.ci = values, list(choices), 0
        self.counts = {}
        self.only = only
        self.failed = []
        self.checked = 0

    def _v(self, name, default):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        key = f"{name}" if n == 0 else f"{name}#{n}"
        v = self.values.get(key)
        if v is None:
            return default
        if isinstance(v, list) and v and v[0] == "b":
            return bytes(x & 255 for x in v[1])
        return v

    def int(self, name, lo=None, hi=None):
        v = self._v(name, 0 if lo is None else lo)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip
        return v

    def real(self, name):
        return float(self._v(name, 0.0))

    def bool(self, name):
        return bool(self._v(name, False))

    def str(self, name):
        return self._v(name, "")

    def lower_str(self, name, free=None):
        v = self._v(name, "").lower()
        if free is not None and any(c.isspace() or c in free for c in v):
            raise Skip
        return v

    def cased(self, name, free=""):
        y = self._v(name + "_lower", "")
        if any(c.isspace() or c in free for c in y) or y.lower() != y or not y.isascii():
            raise Skip
        x = self._v(name, "")
        return (x if x.lower() == y else y.title()), y

    def field(self, name):
        v = self._v(name, "v")
        if v != v.strip() or any(ord(c) < 32 or ord(c) > 126 for c in v):
            raise Skip
        return v

    def variants(self, name, n=2, free=None):
        y = self._v(name, "x-k")
        if y.lower() != y or not y.isascii() or free is not None and any(c.isspace() or ord(c) < 33 or c in free for c in y):
            raise Skip
        return [[y, y.upper(), y.title()][i % 3] for i in range(n)]

    def bytes(self, name):
        return self._v(name, b"")

    def digits(self, name, maxlen):
        v = self._v(name, "0")
        if not (v.isdigit() and v.isascii() and len(v) <= maxlen):
            raise Skip
        return v

    def test(self, c):
        return bool(c)

    def pick(self, name, v, options):
        for o in options:
            if v == o:
                return o
        self.fail(f"{name} is one of {options}")

    def choice(self, label, options):
        options = list(options)
        for i in range(self.ci, len(self.choices)):
            if self.choices[i][0] == label:
                self.ci = i + 1
                return options[self.choices[i][1]]
        return options[0]

    def check(self, name, cond, note=""):
        self.checked += 1
        if not cond:
            self.failed.append((name, note))
            raise ReplayFailure(name)
        return True

    def aux(self, name, cond, note=""):
        return True

    def fail(self, name, note=""):
        self.check(name, False, note)

    def assume(self, cond):
        if not cond:
            raise Skip

    def cover(self, name):
        pass

    def eq(self, a, b):
        return a == b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def len(self, x):
        return len(x)

    def cat(self, *xs):
        return b"".join(bytes(x) for x in xs)

    def call(self, f, *a, **k):
        return f(*a, **k)

    def drive(self, coro):
        return asyncio.run(_aw(coro))

    def outcome(self, f, *a, **k):
        try:
            r = f(*a, **k)
            if inspect_coro(r):
                r = self.drive(r)
            return "ok", r
        except (Exception, asyncio.CancelledError, GeneratorExit) as e:
            if isinstance(e, (ReplayFailure, Skip)):
                raise
            return "exc", e

    def new(self, cls, *a, **k):
        return cls(*a, **k)

    def list(self, *xs):
        return list(xs)

    def dict(self, items=()):
        return dict(items)


async def _aw(c):
    return await c
