"""Path exploration, verification conditions and solver back ends.

A target is a Python function run under an `Explorer`.  The code under contract (the real
source, instrumented) is executed on symbolic values; every truth test on a symbolic value is
a decision.  The explorer enumerates all decision sequences by re-execution, so a target
without loops over symbolic data is explored exhaustively, and loops over symbolic data are
cut at their heads (see loops.py), which makes each path finite while covering every number
of iterations.  Each `check` is a verification condition  path-condition => formula.
"""
from __future__ import annotations

import contextvars
import gc
import os
import subprocess
import sys
import tempfile
import time
import traceback

import z3


class Fatal(BaseException):
    """Ends the path: what `finally` clauses and handlers of the program do on its way out
    does not count, and cannot replace it."""

    def __init__(self, *args):
        super().__init__(*args)
        if EX is not None and EX.fatal is None and not EX.dead:
            EX.fatal = self
            EX.dead = True


class PathEnd(Fatal):
    """This path is finished (infeasible, cut at a loop head, or explicitly ended)."""


class Unsupported(Fatal):
    """The code does something the verifier does not model: the target is undecided."""


class Undecided(Fatal):
    pass


class Restart(Fatal):
    """The loop contract under inference changed; the subtree is explored again."""


class Decision:
    __slots__ = ("kind", "val", "alts", "mark", "key", "label", "count")

    def __init__(self, kind, val, alts, mark=0, key=None, label=None, count=None):
        self.kind = kind  # 'b' branch, 'c' choice, 'l' loop shape
        self.val = val
        self.alts = alts  # remaining alternatives (list)
        self.mark = mark
        self.key = key
        self.label = label
        self.count = count


class LoopPlan:
    """The contract inferred for one loop entry: what it modifies, the discrete states its
    head is reached in, and which candidate invariants are inductive."""

    def __init__(self):
        self.locs = []
        self.killed = set()
        self.widen = set()
        self.changed = set()
        self.hinted = False
        self.reset()

    def reset(self):
        self.shapes = []
        self.recorded = False
        self.popped = False
        self.dirty = False
        self.crossed = set()
        self.filtered = False


class Result:
    __slots__ = ("name", "status", "how", "model", "path", "note", "taint")

    def __init__(self, name, status, how="", model=None, path=None, note="", taint=False):
        self.name = name
        self.status = status  # discharged / failed / undecided
        self.how = how
        self.model = model
        self.path = path
        self.note = note
        self.taint = taint


EX = None  # the current explorer


def ex():
    if EX is None:
        raise RuntimeError("no explorer active")
    return EX


_T = z3.BoolVal(True)
_F = z3.BoolVal(False)

_fn_cache = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    f = _fn_cache.get(key)
    if f is None:
        f = _fn_cache[key] = z3.Function(name, *sorts)
    return f


Msg = z3.DeclareSort("Msg")


def cvc5_check(smt2, timeout_s):
    exe = "/usr/bin/cvc5"
    for c in ("/usr/local/bin/cvc5", "/usr/bin/cvc5", "/opt/veriftools/bin/cvc5"):
        if os.path.exists(c):
            exe = c
            break
    fd, fn = tempfile.mkstemp(suffix=".smt2", prefix="pyvc")
    try:
        os.write(fd, smt2.encode())
        os.close(fd)
        p = subprocess.run(
            [exe, "--lang=smt2", "--strings-exp", f"--tlimit={int(timeout_s * 1000)}", fn],
            capture_output=True,
            text=True,
            timeout=timeout_s + 10,
        )
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


class Explorer:
    def __init__(self, name, fn, *, max_paths=20000, time_limit=600.0, query_ms=4000,
                 branch_ms=1500, only_choices=None, verbose=False, unroll=None, bounded=None,
                 reentry=False):
        self.name = name
        self.fn = fn
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.query_ms = query_ms
        self.branch_ms = branch_ms
        self.unroll = unroll  # iterations of a loop over bounded data before it is cut
        # How a cut loop over a generator is resumed: with reentry, its state is forgotten only
        # together with that of the loop inside the generator (more precise, more paths).
        self.reentry = reentry
        self.verbose = verbose
        self.only_choices = only_choices  # optional {label: value}
        self.results = []
        self.covers = {}
        self.reached = {}
        self.functions = set()
        self.assumed = set()
        self.stats = dict(paths=0, queries=0, solver_s=0.0, trivial=0, cvc5=0, restarts=0,
                          branch_unknown=0, loops=set(), invariants=set(), vehicles={})
        self.errors = []  # unsupported / crashes
        self.intern = {}  # path conditions, so that queries repeated after a restart are cached
        self.cache = {}
        self.alive = []
        self.syms = {}
        self.plans = {}  # loop key -> LoopPlan
        self.hints = {}  # loop id -> locations it was seen to write
        self.must_cut = set()  # loops that are cut
        self.dead = False
        self.fatal = None

    # -- per path state ----------------------------------------------------
    def _reset(self):
        self.i = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.pc = []
        self.pcid = 0
        self.pending = 0
        self.fresh_n = {}
        self.inputs = []  # (name, kind, python sym/desc)
        self.choices = []
        self.serial = 0
        self.registry = {}
        self.serial_of = {}
        self.keep = []
        from . import modstate

        modstate.get().restore()
        for n, x in modstate.numbered():
            self.registry[n] = x
            self.serial_of[id(x)] = n
        self.loop_stack = []
        self.loop_occ = {}
        self.taint = False
        self.ghosts = []
        self.path_notes = []
        self.json_reg = []
        self.data = {}
        self.dead = False
        self.fatal = None
        self.active = []
        self.next_stack = []
        self.vehicle = None
        self.gen_stack = []
        self.constructing = []
        self.clock = 0
        self.invariants = []
        from .runtime import rt

        rt.contracts.clear()

    # -- exploration --------------------------------------------------------
    def run(self):
        global EX
        t0 = time.time()
        self.t0 = t0
        self.decisions = []
        old = EX
        EX = self
        gc.collect()
        gc.disable()
        oldhook = sys.unraisablehook
        sys.unraisablehook = lambda *a: None
        try:
            while True:
                self._reset()
                self.stats["paths"] += 1
                restart = None
                try:
                    try:
                        contextvars.copy_context().run(self.fn)
                    finally:
                        if self.fatal is not None:
                            raise self.fatal
                except PathEnd:
                    pass
                except Restart as r:
                    restart = r.args[0]
                except Unsupported as u:
                    if self.vehicle is None or "without a loop" in str(u):
                        self._error("unsupported", u)
                except Undecided as u:
                    self._error("undecided", u)
                except RecursionError as e:
                    self._error("crash", e)
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                        raise
                    self._error("crash", e)
                self.vehicle = None
                self.dead = True
                self.registry = self.serial_of = self.keep = self.ghosts = self.data = None
                self.loop_stack = None
                gc.collect(0)
                if self.stats["paths"] % 50 == 0:
                    gc.collect()
                if len(self.errors) > 40:
                    break
                if restart is not None:
                    self.stats["restarts"] += 1
                    self._rewind(restart)
                    if self.stats["restarts"] > 3000:
                        self.errors.append(("limit", "restart limit", ""))
                        break
                    continue
                if not self._backtrack():
                    break
                if self.stats["paths"] >= self.max_paths:
                    self.errors.append(("limit", f"path limit {self.max_paths}", ""))
                    break
                if time.time() - t0 > self.time_limit:
                    self.errors.append(("limit", f"time limit {self.time_limit}s", ""))
                    break
            for lid, ok in self.stats["vehicles"].values():
                if not ok:
                    self.errors.append(("unsupported", "no way back into the generator of " + lid, ""))
        finally:
            self.dead = True
            gc.collect()
            EX = old
            sys.unraisablehook = oldhook
            gc.enable()
        self.stats["wall_s"] = time.time() - t0
        return self

    def _error(self, kind, e):
        msg = f"{type(e).__name__}: {e}"
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-14:])
        self.errors.append((kind, msg, tb))
        if self.verbose:
            print("ERROR", kind, msg)
            print(tb)

    def _rewind(self, key):
        if key == "ALL":
            self.decisions = []
            self.results = []
            self.plans = {}
            self.errors = []
            return
        for n, d in enumerate(self.decisions):
            if d.kind == "m" and d.key == key:
                del self.decisions[n:]
                del self.results[d.mark:]
                self.plans[key].reset()
                for k in [k for k in self.plans if len(k) > len(key) and k[: len(key)] == key]:
                    del self.plans[k]
                return
        raise RuntimeError("restart of a loop that is not on the path")

    def _backtrack(self):
        while self.decisions:
            d = self.decisions[-1]
            if d.kind == "l":
                plan = self.plans[d.key]
                if d.val + 1 < len(plan.shapes):
                    d.val += 1
                    return True
                plan.popped = True
            elif d.kind == "m":
                plan = self.plans[d.key]
                if plan.dirty:
                    # new loop states were found after some use of this plan was exhausted
                    plan.dirty = plan.popped = plan.filtered = False
                    del self.results[d.mark:]
                    self.stats["restarts"] += 1
                    return True
            elif d.alts:
                d.val = d.alts.pop(0)
                return True
            self.decisions.pop()
        return False

    def marker(self):
        """Entry of a cut loop."""
        if self.i < len(self.decisions):
            d = self.decisions[self.i]
            if d.kind != "m":
                raise RuntimeError("non-deterministic replay (marker)")
            self.i += 1
            return d.key
        key = self.path_key()
        self.decisions.append(Decision("m", 0, None, mark=len(self.results), key=key))
        self.i += 1
        if key not in self.plans:
            self.plans[key] = LoopPlan()
        return key

    # -- decisions ------------------------------------------------------------
    def assert_(self, c):
        self.pc.append(c)
        k = (self.pcid, c.get_id())
        n = self.intern.get(k)
        if n is None:
            n = self.intern[k] = len(self.intern) + 1
            self.alive.append(c)
        self.pcid = n

    def _sync(self):
        """Give the solver the assertions it has not seen (none if every query is cached)."""
        if self.pending < len(self.pc):
            self.solver.add(*self.pc[self.pending:])
            self.pending = len(self.pc)

    def _sat(self, c, ms):
        """Is pc and c satisfiable?  'sat' / 'unsat' / 'unknown'"""
        key = (self.pcid, c.get_id())
        r = self.cache.get(key)
        if r is not None:
            return r
        self.alive.append(c)
        self.stats["queries"] += 1
        self._sync()
        t = time.time()
        s = self.solver
        s.set("timeout", ms)
        s.push()
        s.add(c)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        s.pop()
        r = str(r)
        if r == "unknown":
            r = str(self.fresh_check(c, 2 * ms)[0])
        self.stats["solver_s"] += time.time() - t
        self.cache[key] = r
        return r

    def symbols(self, c):
        """The uninterpreted symbols of a formula."""
        r = self.syms.get(c.get_id())
        if r is None:
            r, todo, seen = set(), [c], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                    continue
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r.add(x.decl().name())
                    todo.extend(x.children())
            self.syms[c.get_id()] = r
            self.alive.append(c)
        return r

    def cone(self, c):
        """The path conditions that share symbols with c, transitively."""
        syms, rest, out = set(self.symbols(c)), list(self.pc), []
        while True:
            n = [p for p in rest if self.symbols(p) & syms or not self.symbols(p)]
            if not n:
                return out
            out += n
            for p in n:
                syms |= self.symbols(p)
            rest = [p for p in rest if not (self.symbols(p) & syms)]

    def fresh_check(self, c, ms):
        """A new solver, on the part of the path condition that can matter.  The rest is
        satisfiable on its own or the path is infeasible, so that `unsat` is exact and `sat`
        holds on every feasible path."""
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.cone(c), c)
        try:
            return s.check(), s
        except z3.Z3Exception:
            return z3.unknown, s

    def branch(self, cond):
        if self.dead:
            raise PathEnd
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.i < len(self.decisions):
            d = self.decisions[self.i]
            if d.kind != "b":
                raise RuntimeError("non-deterministic replay (branch)")
            self.i += 1
            self.assert_(c if d.val else z3.Not(c))
            return d.val
        rt = self._sat(c, self.branch_ms)
        if rt == "unsat":
            val, alts = False, []
        else:
            rf = self._sat(z3.Not(c), self.branch_ms)
            if rt == "unknown" or rf == "unknown":
                self.stats["branch_unknown"] += 1
            if rf == "unsat":
                val, alts = True, []
            else:
                val, alts = True, [False]
        self.decisions.append(Decision("b", val, alts))
        self.i += 1
        self.assert_(c if val else z3.Not(c))
        return val

    def choice(self, n, label=None):
        """A nondeterministic choice among range(n)."""
        if self.dead:
            raise PathEnd
        if self.i < len(self.decisions):
            d = self.decisions[self.i]
            if d.kind != "c" or d.count != n:
                raise RuntimeError(f"non-deterministic replay (choice {label})")
            self.i += 1
        else:
            if self.only_choices and label in self.only_choices:
                d = Decision("c", self.only_choices[label], [], count=n, label=label)
            else:
                d = Decision("c", 0, list(range(1, n)), count=n, label=label)
            self.decisions.append(d)
            self.i += 1
        self.choices.append((label, d.val))
        return d.val

    def shape_choice(self, key):
        plan = self.plans[key]
        if self.i < len(self.decisions):
            d = self.decisions[self.i]
            if d.kind != "l" or d.key != key:
                raise RuntimeError("non-deterministic replay (loop)")
            self.i += 1
        else:
            d = Decision("l", 0, None, mark=len(self.results), key=key)
            self.decisions.append(d)
            self.i += 1
        return d.val

    def path_key(self):
        return tuple((d.kind, d.val) for d in self.decisions[: self.i])

    def assume(self, cond, why=None):
        if self.dead:
            raise PathEnd
        c = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd
        self.assert_(c)

    def feasible(self):
        return self._sat(_T, self.branch_ms) != "unsat"

    # -- fresh symbols --------------------------------------------------------
    def fresh(self, base, sort):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return z3.Const(f"{base}!{n}" if n else base, sort)

    # -- obligations ------------------------------------------------------------
    def prove(self, cond, ms=None):
        """'unsat' when pc => cond is valid."""
        if isinstance(cond, bool):
            if cond:
                return "unsat", None
            r = self._sat(_T, ms or self.query_ms)
            return ("unsat" if r == "unsat" else "sat" if r == "sat" else "unknown"), None
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.stats["trivial"] += 1
            return "unsat", None
        key = (self.pcid, c.get_id(), "p")
        if key in self.cache:
            return self.cache[key]
        self.alive.append(c)
        self.stats["queries"] += 1
        self._sync()
        t = time.time()
        s = self.solver
        s.set("timeout", ms or self.query_ms)
        s.push()
        s.add(z3.Not(c))
        model = None
        try:
            r = str(s.check())
            if r == "sat":
                try:
                    model = s.model()
                except z3.Z3Exception:
                    model = None
            if r == "unknown":
                r2, s2 = self.fresh_check(z3.Not(c), ms or self.query_ms)
                if str(r2) == "unsat":
                    r = "unsat"
                smt = s2.to_smt2()
            if r == "unknown":
                self.stats["cvc5"] += 1
                r2 = cvc5_check(smt, max(2.0, (ms or self.query_ms) / 1000))
                if r2 in ("sat", "unsat"):
                    r = r2
        except z3.Z3Exception:
            r = "unknown"
        s.pop()
        self.stats["solver_s"] += time.time() - t
        self.cache[key] = (r, model)
        return r, model

    def check(self, name, cond, note="", stop=True):
        if self.dead:
            raise PathEnd
        if self.vehicle is not None:
            return True
        if hasattr(cond, "e"):
            cond = cond.e
        r, model = self.prove(cond)
        if r == "unsat":
            self.results.append(Result(name, "discharged"))
            n = self.reached.get(name, 0)
            if n is not True and n < 6:
                # vacuity guard: some path on which the obligation arises is feasible
                self.reached[name] = True if self._sat(_T, self.branch_ms) == "sat" else n + 1
            return True
        if r == "sat":
            res = Result(name, "failed", model=self.valuation(model), path=list(self.choices),
                         note=note or str(cond)[:400], taint=self.taint)
            self.results.append(res)
            if self.verbose:
                print("FAILED", name, note, str(cond)[:300], res.model, self.choices)
            if stop:
                raise PathEnd
            return False
        self.results.append(Result(name, "undecided", note=note or str(cond)[:400], taint=self.taint))
        if self.verbose:
            print("UNDECIDED", name, str(cond)[:600])
        return False

    def fail(self, name, note=""):
        """An obligation `this point is unreachable`."""
        self.check(name, False, note=note)

    def cover(self, name):
        """Vacuity guard: this point is reachable on some feasible path."""
        if self.covers.get(name) or self.vehicle is not None:
            return
        if self._sat(_T, self.query_ms) == "sat":
            self.covers[name] = True
        else:
            self.covers.setdefault(name, False)

    def valuation(self, model):
        out = {}
        for name, kind, term in self.inputs:
            try:
                if model is None:
                    out[name] = None
                    continue
                v = model.eval(term, model_completion=True)
                if kind == "int":
                    out[name] = v.as_long()
                elif kind == "bool":
                    out[name] = z3.is_true(v)
                elif kind == "str":
                    out[name] = z3str(v)
                elif kind == "bytes":
                    out[name] = ["b", [ord(c) for c in z3str(v)]]
                elif kind == "real":
                    out[name] = float(v.as_fraction())
                else:
                    out[name] = str(v)
            except Exception as e:
                out[name] = None
        return out


def z3str(v):
    s = v.as_string()
    # z3 escapes non-printable characters as \u{..}
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
