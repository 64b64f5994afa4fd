"""
Import hook that re-reads the Python source of the code under test (and of the
oracle and the harnesses) and rewrites literals and builtins so that symbolic
proxies flow through it.  Nothing is cached: the source on disk at import time
is what is executed.
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import values as V
from . import fakes

VENV = "/opt/venv/lib/python3.12/site-packages"
REPO_SRC = os.environ.get("SX_REPO_SRC", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ROOTS = {
    "ethereum": REPO_SRC,
    "ethereum_spec_tools": REPO_SRC,
    "ethereum_types": VENV,
    "ethereum_rlp": VENV,
    "oracle": HERE,
    "props": HERE,
}

NATIVE = {"ethereum_types.frozen"}

LOADED = {}     # module name -> (path, source sha)

_ARITH = {f"__{p}{n}__" for n in
          "add sub mul floordiv mod pow and or xor lshift rshift truediv divmod".split() for p in ("", "r")}
_ARITH |= {"__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is bytes:
            return ast.copy_location(ast.Call(_name("__sx_B__"), [ast.Constant(n.value)], []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                elts.append(ast.Tuple([ast.Constant(True), ast.Constant(None), v], ast.Load()))
            else:
                elts.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        return ast.copy_location(ast.Call(_name("__sx_dict__"), [ast.List(elts, ast.Load())], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(_name("__sx_SSet__"), [ast.List(n.elts, ast.Load())], []), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.copy_location(ast.Call(_name("__sx_SDict__"), [g], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(n.elt, n.generators)
        return ast.copy_location(ast.Call(_name("__sx_SSet__"), [g], []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if (isinstance(f, ast.Attribute) and f.attr in _ARITH
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super")
                and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords):
            return ast.copy_location(ast.Call(_name("__sx_dunder__"), [
                f.value, ast.Constant(f.attr), ast.Tuple(n.args, ast.Load()), _name("__sx_nokw__")], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)

        def w(e):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
                return ast.copy_location(ast.Call(_name("__sx_type__"), e.args, []), e)
            return e
        n.left = w(n.left)
        n.comparators = [w(c) for c in n.comparators]
        return n


def sx_type(x):
    t = type(x)
    if t in (int, V.SInt):
        return V.Int
    if t is V.SBool:
        return bool
    if t is bytes:
        return V.SymBytes
    if t is bytearray:
        return V.SByteArray
    return t


_B = dict(vars(builtins))
_B.update({
    "int": V.Int, "bytes": V.SymBytes, "bytearray": V.SByteArray, "dict": V.SDict, "set": V.SSet,
    "frozenset": V.SSet, "len": V.slen, "range": V.srange, "pow": V.spow_builtin,
    "memoryview": V.smemoryview, "hex": V.shex,
    "__sx_B__": V.B, "__sx_dict__": V.mkdict, "__sx_SDict__": V.SDict, "__sx_SSet__": V.SSet,
    "__sx_dunder__": V.dunder, "__sx_nokw__": {}, "__sx_type__": sx_type,
})
_real_import = builtins.__import__


def _sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top in fakes.MODULES:
            m = fakes.get(name)
            if m is not None:
                if fromlist:
                    return m
                return fakes.get(top) or m
    return _real_import(name, globals, locals, fromlist, level)


_B["__import__"] = _sx_import

POST = {}       # module name -> function(module) run right after import


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        LOADED[module.__name__] = self.path
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = _B
        exec(code, module.__dict__)
        f = POST.get(module.__name__)
        if f is not None:
            f(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        root = ROOTS.get(top)
        if root is None or name in NATIVE:
            return None
        base = os.path.join(root, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, Loader(init, True), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + ".py"):
            spec = importlib.machinery.ModuleSpec(name, Loader(base + ".py", False), origin=base + ".py")
            spec.has_location = True
            return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def _post_numeric(m):
    m.Unsigned.__index__ = lambda self: V.concretise(V.term(self._number))
    m.Unsigned.__copy__ = lambda self: self
    m.Unsigned.__deepcopy__ = lambda self, memo: self


POST["ethereum_types.numeric"] = _post_numeric


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    if VENV not in sys.path:
        sys.path.append(VENV)
