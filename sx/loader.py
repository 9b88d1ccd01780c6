"""Loads the code under test from source for symbolic execution.

Every module of the package is read from a snapshot of /repo's working tree: Python modules are used
as they are, Cython modules are converted (sx.decython), C kernels are compiled to LLVM IR
(sx.llvm).  Only two constructs are rewritten: dict/set displays become solver-aware containers and
``type(x)`` is redirected, so that symbolic values look like the built-in types they stand for.
Modules are executed afresh for every path, which isolates paths from each other.
"""
import ast
import builtins
import os
import sys
import types

from sx import cyrt, shims
from sx.containers import SymDict, SymSet
from sx.decython import convert


class _Rewrite(ast.NodeTransformer):
    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple([ast.Constant(True), v, ast.Constant(None)], ast.Load()))
            else:
                elts.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        call = ast.Call(ast.Name("__sx_dict__", ast.Load()), [ast.List(elts, ast.Load())], [])
        return ast.copy_location(call, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.Tuple([ast.Constant(False), node.key, node.value], ast.Load())
        call = ast.Call(
            ast.Name("__sx_dict__", ast.Load()), [ast.ListComp(elt, node.generators)], []
        )
        return ast.copy_location(call, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        call = ast.Call(ast.Name("__sx_set__", ast.Load()), [ast.List(node.elts, ast.Load())], [])
        return ast.copy_location(call, node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        call = ast.Call(
            ast.Name("__sx_set__", ast.Load()), [ast.ListComp(node.elt, node.generators)], []
        )
        return ast.copy_location(call, node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "type" and len(node.args) == 1 and not node.keywords:
            node.func = ast.copy_location(ast.Name("__sx_type__", ast.Load()), f)
        elif (
            isinstance(f, ast.Attribute)
            and f.attr == "join"
            and isinstance(f.value, (ast.Constant, ast.JoinedStr))
            and len(node.args) == 1
        ):
            node.func = ast.copy_location(ast.Name("__sx_join__", ast.Load()), f)
            node.args = [f.value, node.args[0]]
        return node

    def visit_Match(self, node):
        # patterns stay as they are; their values are compared with == by Python itself
        node.subject = self.visit(node.subject)
        for case in node.cases:
            if case.guard:
                case.guard = self.visit(case.guard)
            case.body = [self.visit(s) for s in case.body]
        return node


def rewrite(text, filename):
    tree = ast.parse(text, filename)
    tree = _Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


def _sx_dict(items):
    d = SymDict()
    for merge, k, v in items:
        if merge:
            d.update(k)
        else:
            d[k] = v
    return d


def _sx_join(sep, items):
    out = None
    for x in items:
        out = x if out is None else out + sep + x
    return "" if out is None else out


class Snapshot:
    """Source files of the package and what is derived from them, prepared once per run."""

    def __init__(self, root, kernels=None):
        self.root = root  # directory holding dwave/
        self.kernels = kernels  # sx.llvm.Module of the compiled ops.h
        self.code = {}
        self.pxd_types = {}
        self.converted = []

    def find(self, name):
        """-> (kind, path) of module `name`."""
        base = os.path.join(self.root, *name.split("."))
        for kind, p in (
            ("pkg", os.path.join(base, "__init__.py")),
            ("py", base + ".py"),
            ("pyx", base + ".pyx"),
        ):
            if os.path.exists(p):
                return kind, p
        if os.path.isdir(base):
            return "ns", base
        return None, None

    def load_code(self, name):
        if name in self.code:
            return self.code[name]
        kind, path = self.find(name)
        if kind is None:
            self.code[name] = (None, None, None)
        elif kind == "ns":
            self.code[name] = (kind, path, None)
        else:
            with open(path, encoding="utf-8") as f:
                text = f.read()
            if kind == "pyx":
                attrs = {}
                pxd = path[:-1] + "d"
                if os.path.exists(pxd):
                    with open(pxd, encoding="utf-8") as f:
                        _, c = convert(name, f.read(), True)
                    attrs = c.attr_types
                text, _ = convert(name, text, False, attrs)
                self.converted.append(name)
            self.code[name] = (kind, path, rewrite(text, path))
        return self.code[name]

    def load_pxd(self, name):
        key = name + ".pxd"
        if key not in self.code:
            path = os.path.join(self.root, *name.split(".")) + ".pxd"
            if not os.path.exists(path):
                self.code[key] = None
            else:
                with open(path, encoding="utf-8") as f:
                    text, _ = convert(name, f.read(), True)
                self.converted.append(key)
                self.code[key] = rewrite(text, path)
        return self.code[key]


class Lib:
    """One fresh instance of the package."""

    def __init__(self, snapshot, stubs=None):
        self.snapshot = snapshot
        self.modules = {}
        self.stubs = dict(stubs or {})
        self.builtins = dict(vars(builtins))
        self.builtins.update(shims.BUILTINS)
        self.builtins.update(
            __import__=self._import,
            __sx_dict__=_sx_dict,
            __sx_set__=SymSet,
            __sx_type__=shims.sx_type,
            __sx_join__=_sx_join,
        )
        self.builtins.update(cyrt.runtime(self))

    def get(self, name):
        """Import module `name` and return it (lib.get("dwave.gate.circuit"))."""
        return self._load(name)

    def _load(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = None
        if "." in name:
            parent = self._load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        kind, path, code = self.snapshot.load_code(name)
        if kind is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        if kind in ("pkg", "ns"):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.modules[name] = m
        if name == "dwave":
            return m
        if code is not None:
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def pxd(self, name):
        key = name + ".pxd"
        if key not in self.modules:
            code = self.snapshot.load_pxd(name)
            if code is None:
                raise ModuleNotFoundError(f"no declarations for {name}")
            m = types.ModuleType(name)
            m.__builtins__ = self.builtins
            m.__package__ = name.rpartition(".")[0]
            self.modules[key] = m
            exec(code, m.__dict__)
        return self.modules[key]

    SHIMS = {"math": shims.math, "cmath": shims.cmath, "numpy": shims.numpy}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top in self.stubs:
            return self._import_from(self.stubs, name, fromlist)
        if top == "dwave":
            m = self._load(name)
            if not fromlist:
                return self.modules["dwave"]
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        self._load(f"{name}.{f}")
                    except ModuleNotFoundError:
                        pass
            return m
        if top in self.SHIMS:
            mod = builtins.__import__(name, None, None, ("x",), 0)
            if name == top:
                return self.SHIMS[top]
            if not fromlist:
                return self.SHIMS[top]
            # numpy.linalg, numpy.random: prefer the stand-in
            obj = self.SHIMS[top]
            for p in name.split(".")[1:]:
                if p == "typing":
                    return mod
                obj = getattr(obj, p)
            return obj
        if name in shims.MODULES:
            return shims.MODULES[name]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _import_from(self, mods, name, fromlist):
        if name not in mods:
            raise ModuleNotFoundError(f"No module named {name!r}")
        return mods[name] if fromlist else mods[name.split(".")[0]]
