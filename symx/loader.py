"""Loads the code under analysis from the current working tree of /repo.

symbolic mode: the source is parsed, float literals and int/int divisions are made
exact, and third-party modules are replaced by the symbolic stand-ins.
concrete mode: the same source runs unchanged on real numpy/scipy/sympy, with only
the stubs of the harness (integrators, root finders, contour finders, files) in place.
"""
import ast
import builtins
import os
import sys
import types
import importlib
from . import terms as T
from .terms import Unsupported
from .shims import (Overlay, Mock, MathShim, ConstantsShim, UnsupportedModule, make_lambdify, SymFloat, SymInt,
                    symx_div, symx_f, unsupported_fn)
from .arrays import NPShim

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "cuprates_transport"

_SRC = {}


class _Exact(ast.NodeTransformer):
    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.copy_location(ast.Call(ast.Name("__symx_f__", ast.Load()),
                                              [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__symx_div__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_MatchValue(self, node):
        return node


def path_of(name):
    rel = name.split(".")
    p = os.path.join(REPO, *rel)
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py")
    return p + ".py"


def code_for(name, sym):
    k = (name, sym)
    if k not in _SRC:
        p = path_of(name)
        with open(p, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, p)
        if sym:
            tree = ast.fix_missing_locations(_Exact().visit(tree))
        _SRC[k] = compile(tree, p, "exec")
    return _SRC[k]


def _ident_jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


class World:
    """one hermetic set of loaded modules"""

    def __init__(self, sym, stubs):
        self.sym = sym
        self.stubs = stubs          # {"scipy.integrate": {"odeint": f}, ...}
        self.mods = {}
        self.ext = {}
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["print"] = lambda *a, **k: None
        self.builtins["__symx_f__"] = symx_f
        self.builtins["__symx_div__"] = symx_div
        if sym:
            self.builtins["float"] = SymFloat
            self.builtins["int"] = SymInt
            self.np = _shared_np()
        else:
            import numpy
            self.np = numpy
        if "builtins" in stubs:
            self.builtins.update(stubs["builtins"])

    # -------------------------------------------------------------- imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or PKG
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name) if name != PKG else self.package()
            if not fromlist:
                return self.package()
            if name == PKG:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(path_of(PKG + "." + f)):
                        setattr(m, f, self.load(PKG + "." + f))
            return m
        top = name.split(".")[0]
        if not fromlist:
            self.external(name)
            return self.external(top)
        return self.external(name)

    def package(self):
        if PKG not in self.mods:
            m = types.ModuleType(PKG)
            m.__path__ = [os.path.join(REPO, PKG)]
            self.mods[PKG] = m
        return self.mods[PKG]

    def external(self, name):
        if name in self.ext:
            return self.ext[name]
        m = self._make(name)
        self.ext[name] = m
        return m

    def _make(self, name):
        st = dict(self.stubs.get(name, {}))
        parts = name.split(".")
        top = parts[0]
        if top in ("matplotlib", "mpl_toolkits", "seaborn", "pylab"):
            root = self.stubs.get("matplotlib", {}).get("root")
            if root is not None:
                for p in parts[1:]:
                    root = getattr(root, p)
                return root
            return Mock(name)
        if top == "tqdm":
            f = lambda x=None, *a, **k: x if x is not None else Mock("tqdm")
            return Overlay(None, {"tqdm": f, "trange": lambda *a, **k: range(*a), "auto": Overlay(None, {"tqdm": f}),
                                  "notebook": Overlay(None, {"tqdm": f})}, name)
        if top == "numba":
            return Overlay(None, {"jit": _ident_jit, "njit": _ident_jit, "prange": range, "vectorize": _ident_jit,
                                  "float64": Mock("float64"), "config": Mock("config")}, name)
        if top in ("lmfit",):
            return Overlay(Mock(name), st, name)
        if top in ("psutil",):
            return Overlay(None, dict({"cpu_count": lambda logical=True: 2}, **st), name)
        if top == "multiprocessing":
            return Overlay(Mock(name), st, name)
        if name == "numpy" or top == "numpy":
            st = dict(self.stubs.get("numpy", {}))
            base = Overlay(self.np, st, "numpy") if st else self.np
            m = base
            for p in parts[1:]:
                m = getattr(m, p)
            return m
        if top == "sympy":
            import sympy
            if not self.sym:
                return importlib.import_module(name)
            lam = _shared_lambdify(lambda: self.stubs.get("sympy_ns", {}))
            real = importlib.import_module(name)
            over = {"lambdify": lam}
            if name == "sympy":
                over["utilities"] = Overlay(sympy.utilities, {"lambdify": Overlay(None, {"lambdify": lam})})
            if name == "sympy.utilities":
                over = {"lambdify": Overlay(None, {"lambdify": lam})}
            return Overlay(real, over, name)
        if top == "math" and self.sym:
            return MathShim()
        if top == "scipy":
            real = importlib.import_module(name)
            if name == "scipy":
                subs = {}
                for s in ("constants", "optimize", "integrate", "interpolate", "linalg", "special", "ndimage", "spatial"):
                    subs[s] = self.external("scipy." + s)
                return Overlay(real, subs, name)
            if name == "scipy.constants":
                return ConstantsShim() if self.sym else real
            if self.sym:
                return Overlay(UnsupportedModule(name, real), st, name)
            return Overlay(real, st, name)
        if top == "skimage":
            real = importlib.import_module(name)
            if name == "skimage":
                return Overlay(real, {"measure": self.external("skimage.measure")}, name)
            if self.sym:
                return Overlay(UnsupportedModule(name, real), st, name)
            return Overlay(real, st, name)
        real = importlib.import_module(name)
        return Overlay(real, st, name) if st else real

    # -------------------------------------------------------------- package modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if not os.path.exists(path_of(name)):
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path_of(name)
        m.__package__ = name.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        setattr(self.package(), name.rsplit(".", 1)[1], m)
        exec(code_for(name, self.sym), m.__dict__)
        return m


_NP = None
_LAM = None


def _shared_np():
    global _NP
    if _NP is None:
        _NP = NPShim()
    return _NP


_EXTRA = [dict]


def _shared_lambdify(extra):
    global _LAM
    _EXTRA[0] = extra
    if _LAM is None:
        _LAM = make_lambdify(_shared_np(), lambda: _EXTRA[0]())
    return _LAM
