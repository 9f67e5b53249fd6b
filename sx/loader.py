"""Loads lie_nn from /repo's current source with `/`, `**` and number constructors rewritten to exact helpers."""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import types
from . import shim

REPO = os.environ.get("SX_REPO", "/repo")
PKG = "lie_nn"
HELP = {
    "sx__div": shim.sx_div, "sx__idiv": shim.sx_idiv, "sx__pow": shim.sx_pow, "sx__int": shim.sx_int,
    "sx__float": shim.sx_float, "sx__complex": shim.sx_complex, "sx__range": shim.sx_range,
    "sx__powb": shim.sx_pow_builtin, "sx__round": shim.sx_round, "sx__idx": shim.sx_idx,
}
CALLS = {"int": "sx__int", "float": "sx__float", "complex": "sx__complex", "range": "sx__range", "pow": "sx__powb", "round": "sx__round"}
SOURCES = {}


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        h = {ast.Div: "sx__div", ast.Pow: "sx__pow"}.get(type(n.op))
        if h:
            return ast.copy_location(ast.Call(ast.Name(h, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        h = {ast.Div: "sx__idiv", ast.Pow: "sx__pow"}.get(type(n.op))
        if h:
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            load = self.visit(load)
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(h, ast.Load()), [load, n.value], [])), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)

        def wrap(e):
            if isinstance(e, (ast.Slice, ast.Constant)) or (isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)):
                return e
            return ast.copy_location(ast.Call(ast.Name("sx__idx", ast.Load()), [e], []), e)
        if isinstance(n.slice, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.slice.elts):
                return n
            n.slice.elts = [wrap(e) for e in n.slice.elts]
        else:
            n.slice = wrap(n.slice)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS:
            n.func = ast.copy_location(ast.Name(CALLS[n.func.id], ast.Load()), n.func)
        if isinstance(n.func, ast.Name) and n.func.id == "map" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in CALLS:
            n.args[0] = ast.copy_location(ast.Name(CALLS[n.args[0].id], ast.Load()), n.args[0])
        return n


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if name in shim.MODULES:
            if fromlist:
                return shim.MODULES[name]
            return shim.MODULES[top]
        if top in ("numpy", "scipy", "jax") and not fromlist:
            return shim.MODULES[top]
        if name == "re":
            from . import symstr
            return symstr.re_shim
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS["isinstance"] = shim.sx_isinstance
BUILTINS["__import__"] = _import
BUILTINS["print"] = lambda *a, **k: None


def compile_source(path, name):
    with open(path, "rb") as f:
        src = f.read()
    SOURCES[os.path.relpath(path, REPO)] = hashlib.sha256(src).hexdigest()[:16]
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(Rewrite().visit(tree))
    return compile(tree, path, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        code = compile_source(self.path, mod.__name__)
        mod.__dict__["__builtins__"] = BUILTINS
        mod.__dict__.update(HELP)
        exec(code, mod.__dict__)
        if mod.__name__ == PKG + "._src.util" and hasattr(mod, "round_to_sqrt_rational"):
            from . import rounding
            mod.__sx_orig_round__ = mod.round_to_sqrt_rational
            mod.round_to_sqrt_rational = rounding.wrap(mod.round_to_sqrt_rational)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname.replace(".", "/")
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f), submodule_search_locations=[p])
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f))
        return None


def install():
    sys.meta_path.insert(0, Finder())
