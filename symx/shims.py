"""Stand-ins for the third-party modules imported by the code under analysis."""
import builtins
import math
import sympy as _sp
import numpy as np
from . import terms as T
from .terms import R, SB, Unsupported, lift
from .arrays import NPShim, sarr, has_sym

_TOK = {}
_TOKREV = {}


def R_to_sympy(r):
    c = r.constant()
    if c is not None:
        return _sp.Rational(c.numerator, c.denominator)
    if r.same(T.PI):
        return _sp.pi
    n = _TOKREV.get(r.key)
    if n is None:
        n = "symxtok%d" % len(_TOK)
        _TOK[n] = r
        _TOKREV[r.key] = n
    pos = T.sign_of(r) == "pos"
    return _sp.Symbol(n, positive=True) if pos else _sp.Symbol(n, real=True)


def sympy_to_R(e):
    e = _sp.sympify(e)
    if e.is_Rational:
        return R.const(T.F(int(e.p), int(e.q)))
    if e.is_Float:
        return lift(float(e))
    if e == _sp.pi:
        return T.PI
    if e.is_Symbol:
        if e.name in _TOK:
            return _TOK[e.name]
        raise Unsupported("free sympy symbol %s" % e)
    if e.is_Add:
        r = T.ZERO
        for a in e.args:
            r = r + sympy_to_R(a)
        return r
    if e.is_Mul:
        r = T.ONE
        for a in e.args:
            r = r * sympy_to_R(a)
        return r
    if e.is_Pow:
        return T.pow_(sympy_to_R(e.args[0]), sympy_to_R(e.args[1]))
    f = {"cos": T.cos_, "sin": T.sin_, "exp": T.exp_, "log": T.log_, "Abs": T.abs_}.get(type(e).__name__)
    if f:
        return f(sympy_to_R(e.args[0]))
    raise Unsupported("sympy value %s" % e)


class Overlay:
    """attribute overrides on top of a real module / object"""

    def __init__(self, real, over, name="?"):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["__name__"] = name

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        if self._real is None:
            raise AttributeError(n)
        return getattr(self._real, n)


class Mock:
    """accepts anything (plotting, progress bars, ...)"""

    def __init__(self, name="mock"):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Mock(self._n + "." + n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        if self._n.endswith("subplots"):
            return Mock("fig"), Mock("axes")
        if self._n.endswith(".axis"):
            return (0.0, 1.0, 0.0, 1.0)
        return Mock(self._n)

    def __getitem__(self, k):
        return Mock(self._n)

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter([Mock(self._n)])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __mro_entries__(self, bases):
        return (object,)


class MathShim:
    pi = None

    def __init__(self):
        self.pi = T.PI
        self.e = T.exp_(T.ONE)
        self.inf = math.inf
        self.nan = math.nan
        self.tau = T.PI * 2

    def __getattr__(self, n):
        real = getattr(math, n)
        names = {"cos": T.cos_, "sin": T.sin_, "sqrt": T.sqrt_, "exp": T.exp_, "fabs": T.abs_}
        if n in names:
            return lambda x: names[n](lift(x))
        if n in ("tan", "cosh", "sinh", "tanh", "log10", "log2"):
            return lambda x: getattr(lift(x), n)()
        if n in ("acosh", "asinh", "atanh", "atan"):
            return lambda x: getattr(lift(x), "arc" + n[1:])()
        if n == "log":
            return lambda x, b=None: T.log_(lift(x)) if b is None else T.log_(lift(x)) / T.log_(lift(b))
        if n == "atan2":
            return lambda y, x: T.atan2_(lift(y), lift(x))
        if n == "hypot":
            return lambda *a: T.sqrt_(sum((lift(x) * lift(x) for x in a), T.ZERO))
        if n == "pow":
            return lambda x, y: T.pow_(lift(x), lift(y))
        if n == "radians":
            return lambda x: lift(x).deg2rad()
        if n == "degrees":
            return lambda x: lift(x).rad2deg()
        if n in ("floor", "trunc"):
            return lambda x: int(T.floor_(lift(x))) if n == "floor" else int(lift(x))
        if n == "ceil":
            return lambda x: int(-T.floor_(-lift(x)))
        if n == "fmod":
            from .arrays import _fmod
            return lambda x, y: _fmod(lift(x), lift(y))
        if n in ("isnan", "isinf"):
            return lambda x: False if isinstance(x, R) else real(x)
        if n == "isfinite":
            return lambda x: True if isinstance(x, R) else real(x)
        if n == "isclose":
            return lambda a, b, rel_tol=1e-09, abs_tol=0.0: T.le0(abs(lift(a) - lift(b)) - T.max2(lift(rel_tol) * T.max2(abs(lift(a)), abs(lift(b))), lift(abs_tol)))
        if n == "fsum":
            return lambda xs: sum((lift(x) for x in xs), T.ZERO)
        return real


class ConstantsShim:
    """scipy.constants with symbolic (exact) physical constants"""

    def __init__(self):
        import scipy.constants as sc
        C = T.CONSTS
        self._sc = sc
        q, h, k, m = C["q_e"], C["hbar"], C["k_B"], C["m_e"]
        self._t = {"elementary_charge": q, "e": q, "eV": q, "electron_volt": q, "hbar": h, "h": h * T.PI * 2,
                   "Planck": h * T.PI * 2, "Boltzmann": k, "k": k, "electron_mass": m, "m_e": m, "pi": T.PI}
        self.physical_constants = _PhysConst(self)

    def __getattr__(self, n):
        if n in self._t:
            return self._t[n]
        v = getattr(self._sc, n)
        if isinstance(v, float):
            return lift(v)
        if n in ("value",):
            return lambda k: self.physical_constants[k][0]
        return v


class _PhysConst(dict):
    def __init__(self, c):
        dict.__init__(self)
        self._c = c

    def __getitem__(self, k):
        C = T.CONSTS
        t = {"electron volt": C["q_e"], "elementary charge": C["q_e"], "Boltzmann constant": C["k_B"],
             "reduced Planck constant": C["hbar"], "Planck constant": C["hbar"] * T.PI * 2,
             "electron mass": C["m_e"], "Planck constant over 2 pi": C["hbar"],
             "Boltzmann constant in eV/K": C["k_B"] / C["q_e"],
             "reduced Planck constant in eV s": C["hbar"] / C["q_e"]}
        v = self._c._sc.physical_constants[k]
        if k in t:
            return (t[k],) + tuple(v[1:])
        return (lift(v[0]),) + tuple(v[1:])


def unsupported_fn(name):
    def f(*a, **k):
        raise Unsupported("call of %s (no stub)" % name)
    return f


class UnsupportedModule:
    def __init__(self, name, real=None):
        self._name = name
        self._realm = real

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if self._realm is not None:
            r = getattr(self._realm, n)
            if isinstance(r, type) and issubclass(r, BaseException):
                return r
        return unsupported_fn(self._name + "." + n)


_LNS = {}


def _lambdify_ns(npshim):
    ns = {}
    for n in dir(np):
        if n.startswith("_"):
            continue
        try:
            v = getattr(npshim, n)
        except Exception:
            continue
        ns[n] = v
    ns["numpy"] = npshim
    ns["math"] = MathShim()
    for s, t in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan"), ("atan2", "arctan2"),
                 ("acosh", "arccosh"), ("asinh", "arcsinh"), ("atanh", "arctanh"), ("Abs", "abs"), ("ln", "log")):
        try:
            ns[s] = getattr(npshim, t)
        except AttributeError:
            pass
    ns["pi"] = T.PI
    ns["E"] = T.exp_(T.ONE)
    ns["I"] = 1j
    return ns


def make_lambdify(npshim, extra):
    base = _lambdify_ns(npshim)

    def lambdify(args, expr, modules=None, **kw):
        ns = dict(base)
        ns.update(extra())
        if isinstance(modules, dict):
            ns.update(modules)
        elif isinstance(modules, (list, tuple)):
            for m in modules:
                if isinstance(m, dict):
                    ns.update(m)
        for n, v in _TOK.items():
            ns[n] = v
        kw.pop("printer", None)
        return _sp.lambdify(args, expr, modules=[ns, "numpy"], **kw)
    return lambdify


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, R))

    def __call__(cls, x=0.0):
        if isinstance(x, (R, SB)):
            return lift(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return lift(x.reshape(-1)[0]) if x.size == 1 else float(x)
        v = float(x)
        if math.isinf(v) or math.isnan(v):
            return v
        if isinstance(x, str):
            return R.const(T.F(x.strip()))
        return lift(v)


class SymFloat(metaclass=_FloatMeta):
    fromhex = float.fromhex
    dtype = np.dtype(float)      # so that numpy takes it for a dtype


class _IntMeta(type):
    """int: a symbolic value that is an integer by construction stays symbolic until its value is needed"""

    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, R) and not a and x.constant() is None and not T._int_part(T.canon(x))[1].p:
            return x
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymInt(metaclass=_IntMeta):
    from_bytes = int.from_bytes
    dtype = np.dtype(int)


def symx_div(a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return R.const(T.F(a, b))
    return a / b


def symx_f(s):
    return R.const(T.F(s))
