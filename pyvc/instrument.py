"""Mechanical instrumentation of the real source.

Every module of the packages under verification is read from /repo on every run, parsed,
rewritten by the transformer below and executed by CPython.  The rewriting does not change
what the code does on ordinary values; it routes the operations that CPython would perform
natively on built-in types (calls, subscripts, stores, `in`, f-strings, displays,
comprehensions, loops) through the runtime so that they can be performed on symbolic values,
and it marks loop heads so that they can be cut.

What it drops: nothing.  Module level and class level statements, decorators, defaults and
annotations are left as they are (they run natively, on concrete values).
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

RT = "_pv_rt"

REPO = os.environ.get("PYVC_REPO", "/repo")
SCOPE = {
    "connectrpc": REPO + "/src/connectrpc",
    "connectrpc_otel": REPO + "/connectrpc-otel/connectrpc_otel",
    "protoc_gen_connectrpc": REPO + "/protoc-gen-connectrpc/protoc_gen_connectrpc",
}
# Generated or declarative modules: executed natively.
NATIVE = {"connectrpc._gen.status_pb", "connectrpc._gen", "connectrpc._version"}


def _rt(name, *args):
    return ast.Call(
        func=ast.Attribute(value=ast.Name(RT, ast.Load()), attr=name, ctx=ast.Load()),
        args=list(args),
        keywords=[],
    )


def _const(v):
    return ast.Constant(v)


class _Names(ast.NodeVisitor):
    """Names bound in a piece of a function body (not in nested scopes)."""

    def __init__(self):
        self.names = []
        self.bad = None

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        # walrus targets inside comprehensions bind in the function
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.add(n.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_MatchAs(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_MatchStar(self, node):
        if node.name:
            self.add(node.name)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, node):
        self.bad = "global/nonlocal in loop"

    visit_Nonlocal = visit_Global


def bound_names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v


def _has(node, types):
    for n in ast.walk(node):
        if isinstance(n, types):
            return True
    return False


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.depth = 0
        self.classes = []
        self.funcs = []
        self.counter = 0
        self.loop_ids = {}
        self.nloops = 0

    # -- helpers ---------------------------------------------------------
    def tmp(self, p):
        self.counter += 1
        return f"_pv_{p}{self.counter}"

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__") and self.classes:
            return "_" + self.classes[-1].lstrip("_") + attr
        return attr

    def qual(self):
        return ".".join([self.modname, *self.classes_funcs()])

    def classes_funcs(self):
        return list(self.path) if hasattr(self, "path") else []

    # -- scopes ----------------------------------------------------------
    def visit_Module(self, node):
        self.path = []
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        return node

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        self.path.append(node.name)
        d, self.depth = self.depth, 0
        node.body = self._body(node.body)
        self.depth = d
        self.path.pop()
        self.classes.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def _func(self, node):
        if self.depth > 0:
            # nested function: defaults are evaluated in the enclosing function
            node.args.defaults = [self.visit(d) for d in node.args.defaults]
            node.args.kw_defaults = [
                self.visit(d) if d is not None else None for d in node.args.kw_defaults
            ]
        self.depth += 1
        self.path.append(node.name)
        doc = []
        body = node.body
        if (
            body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)
        ):
            doc, body = body[:1], body[1:]
        is_stub = all(
            isinstance(s, ast.Expr)
            and isinstance(s.value, ast.Constant)
            or isinstance(s, ast.Pass)
            for s in body
        )
        new = self._body(body)
        if not is_stub:
            new.insert(0, ast.Expr(_rt("enter", _const(self.qual()))))
        node.body = doc + new or [ast.Pass()]
        self.path.pop()
        self.depth -= 1
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    # -- expressions -----------------------------------------------------
    def visit_Call(self, node):
        if self.depth == 0:
            return node
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            return node
        if isinstance(f, ast.Name) and f.id in ("locals", "globals"):
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            call = _rt("mcall", self.visit(f.value), _const(self.mangle(f.attr)))
        else:
            call = _rt("call", self.visit(f))
        call.args.extend(args)
        call.keywords = kws
        return ast.copy_location(call, node)

    def visit_Attribute(self, node):
        if self.depth == 0 or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return ast.copy_location(
            _rt("getattr", self.visit(node.value), _const(self.mangle(node.attr))), node
        )

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(
                func=ast.Attribute(ast.Name(RT, ast.Load()), "slice", ast.Load()),
                args=[
                    self.visit(x) if x is not None else _const(None)
                    for x in (s.lower, s.upper, s.step)
                ],
                keywords=[],
            )
        return self.visit(s)

    def visit_Subscript(self, node):
        if self.depth == 0 or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return ast.copy_location(
            _rt("getitem", self.visit(node.value), self._slice(node.slice)), node
        )

    def visit_Compare(self, node):
        if self.depth == 0:
            return node
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _rt("contains", self.visit(node.comparators[0]), self.visit(node.left))
            if isinstance(node.ops[0], ast.NotIn):
                c = _rt("not_", c)
            return ast.copy_location(c, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            c = _rt("eq", self.visit(node.left), self.visit(node.comparators[0]))
            if isinstance(node.ops[0], ast.NotEq):
                c = _rt("not_", c)
            return ast.copy_location(c, node)
        return self.generic_visit(node)

    def visit_JoinedStr(self, node):
        if self.depth == 0:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = _const("")
                else:
                    spec = self.visit(spec)
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), _const(v.conversion), spec], ast.Load()
                    )
                )
        return ast.copy_location(_rt("fstr", *parts), node)

    def visit_BinOp(self, node):
        if self.depth == 0:
            return node
        op = type(node.op).__name__
        if op in ("BitAnd", "BitOr", "FloorDiv", "Mod", "Div", "Mult", "Add", "Sub"):
            return ast.copy_location(
                _rt("binop", _const(op), self.visit(node.left), self.visit(node.right)),
                node,
            )
        return self.generic_visit(node)

    def visit_Dict(self, node):
        if self.depth == 0:
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([_const(True), self.visit(v)], ast.Load()))
            else:
                items.append(
                    ast.Tuple([_const(False), self.visit(k), self.visit(v)], ast.Load())
                )
        return ast.copy_location(_rt("mkdict", *items), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if self.depth == 0 or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(_rt("mklist", node), node)

    def _comp(self, node, kind):
        if self.depth == 0:
            return node
        gens = node.generators
        simple = (
            len(gens) == 1
            and not _has(node, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
            and (
                isinstance(gens[0].target, ast.Name)
                or (
                    isinstance(gens[0].target, ast.Tuple)
                    and all(isinstance(e, ast.Name) for e in gens[0].target.elts)
                )
            )
        )
        if not simple:
            for g in gens:
                g.iter = _rt("native_iter", self.visit(g.iter))
                g.ifs = [self.visit(i) for i in g.ifs]
            if kind == "dict":
                node.key, node.value = self.visit(node.key), self.visit(node.value)
            else:
                node.elt = self.visit(node.elt)
            return node
        g = gens[0]
        if isinstance(g.target, ast.Name):
            names, unpack = [g.target.id], False
        else:
            names, unpack = [e.id for e in g.target.elts], True

        def lam(body):
            return ast.Lambda(
                ast.arguments(
                    posonlyargs=[],
                    args=[ast.arg(n) for n in names],
                    kwonlyargs=[],
                    kw_defaults=[],
                    defaults=[],
                ),
                body,
            )

        cond = _const(None)
        if g.ifs:
            c = (
                self.visit(g.ifs[0])
                if len(g.ifs) == 1
                else ast.BoolOp(ast.And(), [self.visit(i) for i in g.ifs])
            )
            cond = lam(c)
        if kind == "dict":
            elt = lam(ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()))
        else:
            elt = lam(self.visit(node.elt))
        self.nloops += 1
        lid = f"{self.qual()}#c{self.nloops}"
        if g.is_async:
            if kind == "gen":
                return node
            return ast.copy_location(
                ast.Await(
                    _rt("acomp", _const(lid), _const(kind), self.visit(g.iter), elt, cond, _const(unpack))
                ),
                node,
            )
        return ast.copy_location(
            _rt("comp", _const(lid), _const(kind), self.visit(g.iter), elt, cond, _const(unpack)),
            node,
        )

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_MatchValue(self, node):
        return node  # compared by ==, which symbolic values implement

    def visit_MatchClass(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node

    # -- statements ------------------------------------------------------
    def visit_AnnAssign(self, node):
        if self.depth == 0 or node.value is None:
            return node
        if isinstance(node.target, ast.Name):
            node.value = self.visit(node.value)
            return node
        return self._assign(node.target, self.visit(node.value), node)

    def _assign(self, target, value, node):
        if isinstance(target, ast.Name):
            return [ast.copy_location(ast.Assign([target], value), node)]
        if isinstance(target, ast.Attribute):
            return [
                ast.copy_location(
                    ast.Expr(
                        _rt(
                            "setattr",
                            self.visit(target.value),
                            _const(self.mangle(target.attr)),
                            value,
                        )
                    ),
                    node,
                )
            ]
        if isinstance(target, ast.Subscript):
            return [
                ast.copy_location(
                    ast.Expr(
                        _rt("setitem", self.visit(target.value), self._slice(target.slice), value)
                    ),
                    node,
                )
            ]
        if isinstance(target, (ast.Tuple, ast.List)):
            if all(isinstance(e, ast.Name) for e in target.elts):
                return [
                    ast.copy_location(
                        ast.Assign([target], _rt("unpack", value, _const(len(target.elts)))), node
                    )
                ]
            names = [self.tmp("u") for _ in target.elts]
            out = [
                ast.copy_location(
                    ast.Assign(
                        [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                        value,
                    ),
                    node,
                )
            ]
            for e, n in zip(target.elts, names):
                if isinstance(e, ast.Starred):
                    return [ast.copy_location(ast.Assign([target], value), node)]
                out += self._assign(e, ast.Name(n, ast.Load()), node)
            return out
        return [ast.copy_location(ast.Assign([target], value), node)]

    def visit_Assign(self, node):
        if self.depth == 0:
            return node
        value = self.visit(node.value)
        if len(node.targets) == 1:
            return self._assign(node.targets[0], value, node)
        t = self.tmp("a")
        out = [ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], value), node)]
        for tg in node.targets:
            out += self._assign(tg, ast.Name(t, ast.Load()), node)
        return out

    def visit_AugAssign(self, node):
        if self.depth == 0:
            return node
        op = _const(type(node.op).__name__)
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.copy_location(
                ast.Assign(
                    [ast.Name(t.id, ast.Store())],
                    _rt("iop", op, ast.Name(t.id, ast.Load()), v),
                ),
                node,
            )
        if isinstance(t, ast.Attribute):
            return ast.copy_location(
                ast.Expr(
                    _rt("augattr", self.visit(t.value), _const(self.mangle(t.attr)), op, v)
                ),
                node,
            )
        return ast.copy_location(
            ast.Expr(_rt("augitem", self.visit(t.value), self._slice(t.slice), op, v)),
            node,
        )

    def visit_Delete(self, node):
        if self.depth == 0:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(
                    ast.Expr(_rt("delitem", self.visit(t.value), self._slice(t.slice)))
                )
            elif isinstance(t, ast.Attribute):
                out.append(
                    ast.Expr(_rt("delattr", self.visit(t.value), _const(self.mangle(t.attr))))
                )
            else:
                out.append(ast.Delete([t]))
        return [ast.copy_location(o, node) for o in out]

    def visit_Expr(self, node):
        if self.depth and isinstance(node.value, ast.YieldFrom):
            return self._yield_from(node)
        return self.generic_visit(node)

    def _yield_from(self, node):
        # for _pv_y in E: yield _pv_y     (closing the inner iterator with the outer one)
        y = self.tmp("y")
        L = self.tmp("L")
        self._last_L = None
        tr = ast.Try(
            body=[ast.Expr(ast.Yield(ast.Name(y, ast.Load())))],
            handlers=[
                ast.ExceptHandler(
                    type=ast.Name("GeneratorExit", ast.Load()),
                    name=None,
                    body=[
                        ast.Expr(_rt("loop_close", ast.Name(L, ast.Load()))),
                        ast.Raise(None, None),
                    ],
                )
            ],
            orelse=[],
            finalbody=[],
        )
        loop = ast.For(
            target=ast.Name(y, ast.Store()),
            iter=node.value.value,
            body=[tr],
            orelse=[],
            type_comment=None,
        )
        ast.copy_location(loop, node)
        ast.fix_missing_locations(loop)
        # the body holds runtime calls already: transform the iterable only
        return self._loop(loop, "for", pre_body=[tr], lname=L)

    def visit_For(self, node):
        if self.depth == 0:
            return self.generic_visit(node)
        return self._loop(node, "for")

    def visit_AsyncFor(self, node):
        return self._loop(node, "afor")

    def visit_While(self, node):
        if self.depth == 0:
            return self.generic_visit(node)
        return self._loop(node, "while")

    def _loop(self, node, kind, pre_body=None, lname=None):
        self.nloops += 1
        lid = f"{self.qual()}#{self.nloops}"
        L = lname or self.tmp("L")
        scope_stmts = list(node.body)
        nm = bound_names(scope_stmts)
        if kind != "while":
            nt = _Names()
            nt.visit(node.target)
            for n in nt.names:
                nm.add(n)
        else:
            for n in ast.walk(node.test):
                if isinstance(n, ast.NamedExpr):
                    nm.add(n.target.id)
        names = [n for n in nm.names if not n.startswith("_pv_")]
        if nm.bad:
            names = names  # globals are written through module dict: reported at run time
        it = self.visit(node.iter) if kind != "while" else _const(None)
        test = self.visit(node.test) if kind == "while" else None
        body = pre_body if pre_body is not None else self._body(node.body)
        orelse = self._body(node.orelse)
        out = [
            ast.Assign(
                [ast.Name(L, ast.Store())],
                _rt("loop", _const(lid), _const(kind), it, _const(bool(nm.bad))),
            )
        ]
        head_call = _rt(
            "head",
            ast.Name(L, ast.Load()),
            ast.Call(ast.Name("locals", ast.Load()), [], []),
            ast.Tuple([_const(n) for n in names], ast.Load()),
        )
        inner = []
        if names:
            inner.append(
                ast.Assign(
                    [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                    head_call,
                )
            )
            for n in names:
                inner.append(
                    ast.If(
                        ast.Compare(
                            ast.Name(n, ast.Load()),
                            [ast.Is()],
                            [ast.Attribute(ast.Name(RT, ast.Load()), "UNB", ast.Load())],
                        ),
                        [ast.Delete([ast.Name(n, ast.Del())])],
                        [],
                    )
                )
        else:
            inner.append(ast.Expr(head_call))
        done = _rt("loop_done", ast.Name(L, ast.Load()))
        if kind == "while":
            inner.append(
                ast.If(
                    ast.UnaryOp(ast.Not(), test),
                    [ast.Expr(done), *orelse, ast.Break()],
                    [],
                )
            )
        else:
            t = self.tmp("t")
            nxt = _rt("next_" if kind == "for" else "anext_", ast.Name(L, ast.Load()))
            if kind == "afor":
                nxt = ast.Await(nxt)
            inner.append(ast.Assign([ast.Name(t, ast.Store())], nxt))
            inner.append(
                ast.If(
                    ast.Compare(
                        ast.Name(t, ast.Load()),
                        [ast.Is()],
                        [ast.Attribute(ast.Name(RT, ast.Load()), "STOP", ast.Load())],
                    ),
                    [ast.Expr(done), *orelse, ast.Break()],
                    [],
                )
            )
            inner += self._assign(node.target, ast.Name(t, ast.Load()), node)
        inner += body
        out.append(ast.While(_const(True), inner, []))
        for o in out:
            ast.copy_location(o, node)
            for ch in ast.walk(o):
                if not hasattr(ch, "lineno") and isinstance(ch, (ast.stmt, ast.expr)):
                    ast.copy_location(ch, node)
        return out


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    tr = Transformer(modname)
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, runtime, roots=None, instrument=True):
        self.rt = runtime
        self.roots = roots or SCOPE
        self.files = {}
        self.instrument = instrument

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        rel = name.split(".")[1:]
        base = os.path.join(self.roots[top], *rel)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(
                    name, f, loader=self, submodule_search_locations=[base]
                )
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        src = open(f, encoding="utf-8").read()
        self.files[module.__name__] = f
        if not self.instrument or module.__name__ in NATIVE:
            code = compile(src, f, "exec", dont_inherit=True)
        else:
            tree = transform(src, module.__name__, f)
            code = compile(tree, f, "exec", dont_inherit=True)
        module.__dict__[RT] = self.rt
        exec(code, module.__dict__)


def install(runtime, roots=None, instrument=True):
    fd = Finder(runtime, roots, instrument)
    sys.meta_path.insert(0, fd)
    return fd
