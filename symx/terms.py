"""Exact symbolic reals: Laurent sums of monomials over interned atoms.

A value R is a finite sum  sum_m c_m * m  with rational c_m and monomials m over
atoms (variables, uninterpreted-function values, 1/(P), sqrt(P), cos/sin/exp/log/
abs/floor/indicator atoms).  Products of trigonometric atoms are linearised,
exponentials are merged, so equal expressions normally get equal normal forms;
the final verdict on every property is nevertheless given by an SMT solver on
the translation in to_z3 below.
"""
import math
from fractions import Fraction as F


class Unsupported(Exception):
    """The engine cannot represent this operation (check ends inconclusive)."""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "name", "sign", "integer", "special", "value")


ATOMS = []
_TABLE = {}
# kinds whose monomials need reduction after multiplication
_SPECIAL = {"den", "cos", "sin", "exp", "abs", "ind", "sqrtq"}


def reset():
    ATOMS.clear()
    _TABLE.clear()
    _mul_cache.clear()
    _init_consts()


def _key(x):
    if isinstance(x, R):
        return x.key
    if isinstance(x, SB):
        return x.key
    if isinstance(x, (tuple, list)):
        return tuple(_key(i) for i in x)
    return x


def atom(kind, args, name=None, sign=None, integer=False, value=None):
    k = (kind, name, tuple(_key(a) for a in args))
    a = _TABLE.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = tuple(args)
        a.name = name
        a.sign = sign
        a.integer = integer
        a.special = kind in _SPECIAL
        a.value = value
        ATOMS.append(a)
        _TABLE[k] = a
    return a


def atom_R(a):
    return R({((a.id, 1),): F(1)})


def var(name, sign=None, integer=False, value=None):
    return atom_R(atom("var", (), name, sign, integer, value))


def uf(name, args, sign=None, integer=False):
    return atom_R(atom("uf", tuple(canon(lift(a)) for a in args), name, sign, integer))


# --------------------------------------------------------------------------- numbers
def rational(x):
    """Exact rational for a python/numpy number (floats: short decimal or ratio)."""
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, (int, F)):
        return F(x)
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("non-finite number %r" % x)
    if x == int(x) and abs(x) < 2 ** 60:
        return F(int(x))
    f = F(x).limit_denominator(1000)
    if float(f) == x:
        return f
    return F(repr(x))


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, SB):
        return x.as_R()
    import numpy as np
    if isinstance(x, (int, float, F, np.integer, np.floating, np.bool_)):
        return R.const(rational(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if hasattr(x, "is_Rational") or hasattr(x, "free_symbols"):
        from .shims import sympy_to_R
        return sympy_to_R(x)
    raise Unsupported("cannot lift %r" % (type(x),))


_mul_cache = {}


def _merge(m1, m2):
    """merge two sorted monomials, summing exponents"""
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e != 0:
                if e.__class__ is F and e.denominator == 1:
                    e = int(e)
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def mul_mono(m1, m2):
    """product of two monomials as a poly dict"""
    if not m1:
        return {m2: F(1)}
    if not m2:
        return {m1: F(1)}
    key = (m1, m2) if m1 <= m2 else (m2, m1)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    m = _merge(m1, m2)
    spec = [(a, e) for a, e in m if ATOMS[a].special]
    bad = False
    ntrig = nexp = 0
    for a, e in spec:
        k = ATOMS[a].kind
        if k in ("cos", "sin"):
            ntrig += 1
            if e != 1:
                bad = True
        elif k == "exp":
            nexp += 1
            if e != 1:
                bad = True
        elif k == "den":
            if e >= 1:
                bad = True
        elif k == "abs" or k == "sqrtq":
            if e >= 2:
                bad = True
        elif k == "ind":
            if e > 1:
                bad = True
    # an exp atom cancelled exactly cannot happen (exponent -1 never stored)
    if ntrig > 1 or nexp > 1:
        bad = True
    if not bad:
        r = {m: F(1)}
    else:
        r = _reduce(m, spec).p
    if len(_mul_cache) > 400000:
        _mul_cache.clear()
    _mul_cache[key] = r
    return r


def _reduce(m, spec):
    plain = tuple((a, e) for a, e in m if not ATOMS[a].special)
    res = R({plain: F(1)})
    trig = []
    earg = None
    tail = []
    for a, e in spec:
        A = ATOMS[a]
        if A.kind in ("cos", "sin"):
            trig.extend([(A.kind, A.args[0])] * int(e))
        elif A.kind == "exp":
            t = A.args[0] * e
            earg = t if earg is None else earg + t
        elif A.kind == "den":
            k = math.floor(e)
            if k >= 1:
                tail.append((A.args[0], int(k)))
            if e - k != 0 or k < 0:
                x = e - k if k >= 1 else e
                if x.__class__ is F and x.denominator == 1:
                    x = int(x)
                if x != 0:
                    res = res * R({((a, x),): F(1)})
        elif A.kind in ("abs", "sqrtq"):
            k = e // 2
            if k >= 1:
                base = A.args[0] * A.args[0] if A.kind == "abs" else A.args[0]
                tail.append((base, int(k)))
                if e - 2 * k:
                    res = res * R({((a, int(e - 2 * k)),): F(1)})
            else:
                res = res * R({((a, e),): F(1)})
        elif A.kind == "ind":
            res = res * R({((a, 1),): F(1)})
    for P, k in tail:
        for _ in range(k):
            res = res * P
    while len(trig) > 1:
        (k1, a1), (k2, a2) = trig.pop(), trig.pop()
        if len(trig) == 0:
            return _fin_trig(res, k1, a1, k2, a2, earg)
        s = _prod_trig(k1, a1, k2, a2)
        # general case: distribute
        out = R.const(0)
        rest = R.const(1)
        for k, a in trig:
            rest = rest * (cos_(a) if k == "cos" else sin_(a))
        out = s * rest
        res = res * out
        trig = []
    for k, a in trig:
        res = res * R({((atom(k, (a,)).id, 1),): F(1)})
    if earg is not None:
        res = res * exp_(earg)
    return res


def _prod_trig(k1, a1, k2, a2):
    h = F(1, 2)
    d, s = a1 - a2, a1 + a2
    if k1 == "cos" and k2 == "cos":
        return (cos_(d) + cos_(s)) * h
    if k1 == "sin" and k2 == "sin":
        return (cos_(d) - cos_(s)) * h
    if k1 == "sin" and k2 == "cos":
        return (sin_(s) + sin_(d)) * h
    return (sin_(s) - sin_(d)) * h


def _fin_trig(res, k1, a1, k2, a2, earg):
    res = res * _prod_trig(k1, a1, k2, a2)
    if earg is not None:
        res = res * exp_(earg)
    return res


TOKENS, _TOKEN_OF = [], {}


def _token(r):
    """stands for a symbolic value written into a text"""
    n = _TOKEN_OF.get(r.key)
    if n is None:
        n = _TOKEN_OF[r.key] = len(TOKENS)
        TOKENS.append(r)
    return n


ROUNDED = 7919


class R:
    __slots__ = ("p", "_key", "_hash", "absof")
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p
        self._key = None
        self._hash = None
        self.absof = None       # this is the absolute value of that (kept to square it without expanding)

    # ---- construction
    @staticmethod
    def const(c):
        c = F(c)
        return R({(): c}) if c else R({})

    @property
    def key(self):
        k = self._key
        if k is None:
            k = self._key = ("R", frozenset(self.p.items()))
        return k

    def __hash__(self):
        h = self._hash
        if h is None:
            c = self.constant()
            if c is not None:
                h = hash(c)
            elif any(ATOMS[i].kind in ("floor", "round") for m in self.p for i, _ in m):
                h = ROUNDED     # different terms may well be equal: let __eq__ decide
            else:
                h = hash(self.key)
            self._hash = h
        return h

    def constant(self):
        p = self.p
        if not p:
            return F(0)
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def same(self, o):
        return isinstance(o, R) and self.p == o.p

    # ---- arithmetic
    def _bin(self, o):
        """None when numpy should take over / not a number"""
        if isinstance(o, R):
            return o
        import numpy as np
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return None
        try:
            return lift(o)
        except Unsupported:
            return None

    def __add__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("add", o)
        if not x.p:
            return self
        if not self.p:
            return x
        a, b = (self.p, x.p) if len(self.p) >= len(x.p) else (x.p, self.p)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return R(r)

    __radd__ = __add__

    def __neg__(self):
        return R({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("subtract", o)
        return self + (-x)

    def __rsub__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("subtract", o, True)
        return x + (-self)

    def __mul__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("multiply", o)
        if not self.p or not x.p:
            return ZERO
        if x is self and x.absof is not None:
            return x.absof * x.absof
        c = x.constant()
        if c is not None:
            if c == 1:
                return self
            return R({m: v * c for m, v in self.p.items()})
        c = self.constant()
        if c is not None:
            if c == 1:
                return x
            return R({m: v * c for m, v in x.p.items()})
        if len(self.p) * len(x.p) > 250000:
            raise Unsupported("expression too large (%d x %d terms)" % (len(self.p), len(x.p)))
        r = {}
        for m1, c1 in self.p.items():
            for m2, c2 in x.p.items():
                cc = c1 * c2
                for m, c in mul_mono(m1, m2).items():
                    v = r.get(m)
                    w = cc * c if v is None else v + cc * c
                    if w:
                        r[m] = w
                    elif v is not None:
                        del r[m]
        return R(r)

    __rmul__ = __mul__

    def _arr(self, ufn, o, swap=False):
        import numpy as np
        if isinstance(o, (np.ndarray, list, tuple)):
            from .arrays import sarr
            a = sarr(o)
            f = getattr(np, ufn)
            return f(a, self) if swap else f(self, a)
        return NotImplemented

    def inv(self):
        p = self.p
        if not p:
            raise ZeroDivisionError("symbolic division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            return _inv_mono(m) * (1 / c)
        c, m, P = content(self)
        return R({m: F(1)}).inv_mono_() * (1 / c) * _den(P, -1)

    def inv_mono_(self):
        (m, c), = self.p.items()
        return _inv_mono(m) * (1 / c)

    def __truediv__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("true_divide", o)
        c = x.constant()
        if c is not None:
            if c == 0:
                if _zero_div is not None:
                    return _zero_div(self)
                raise ZeroDivisionError("division by zero")
            return self * (1 / c)
        if not self.p:
            return ZERO
        r = _ratio(self, x)
        if r is not None:
            return r
        return cancel(self * x.inv())

    def __rtruediv__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("true_divide", o, True)
        return x / self

    def __pow__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("power", o)
        return pow_(self, x)

    def __rpow__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("power", o, True)
        return pow_(x, self)

    def __floordiv__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("floor_divide", o)
        return floor_(self / x)

    def __rfloordiv__(self, o):
        return floor_(lift(o) / self)

    def __mod__(self, o):
        x = self._bin(o)
        if x is None:
            return self._arr("remainder", o)
        return self - x * floor_(self / x)

    def __rmod__(self, o):
        x = lift(o)
        return x - self * floor_(x / self)

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __abs__(self):
        return abs_(self)

    # ---- comparisons
    def _cmp(self, o, kind):
        import numpy as np
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            if math.isinf(o):
                pos = o > 0
                return SB_const({"le": pos, "lt": pos, "ge": not pos, "gt": not pos,
                                 "eq": False, "ne": True}[kind])
            if math.isnan(o):
                return SB_const(kind == "ne")
        x = self._bin(o)
        if x is None:
            if kind == "eq":
                return False
            if kind == "ne":
                return True
            return NotImplemented
        d = self - x
        if kind == "le":
            return le0(d)
        if kind == "lt":
            return lt0(d)
        if kind == "ge":
            return le0(-d)
        if kind == "gt":
            return lt0(-d)
        if kind == "eq":
            return eq0(d)
        return ~eq0(d)

    def __le__(self, o): return self._cmp(o, "le")
    def __lt__(self, o): return self._cmp(o, "lt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __bool__(self):
        return bool(~eq0(self))

    # ---- conversions
    def __float__(self):
        c = self.constant()
        if c is None:
            c2 = numeric_const(self)
            if c2 is None:
                raise Unsupported("float() of a symbolic value")
            return c2
        return float(c)

    def __int__(self):
        return concretise_int(self)

    __trunc__ = __int__

    def __index__(self):
        c = self.constant()
        if c is not None:
            if c.denominator != 1:
                raise TypeError("non-integer index")
            return int(c)
        return concretise_int(self, exact=True)

    def __round__(self, n=None):
        return round_(self, n)

    def __floor__(self): return floor_(self)
    def __ceil__(self): return -floor_(-self)

    def __format__(self, spec):
        c = self.constant()
        if c is not None:
            if spec and spec[-1] in "dxob":
                return format(int(c), spec)
            return format(float(c), spec)
        return "<#%d|%s>" % (_token(self), spec.replace("<", "").replace(">", ""))

    def __repr__(self):
        c = self.constant()
        if c is not None:
            return str(int(c)) if c.denominator == 1 else repr(float(c))
        return "<%s>" % show(self)

    def __str__(self):
        c = self.constant()
        if c is not None:
            return repr(self)
        return "<#%d>" % _token(self)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # ---- numpy scalar-like API
    def item(self): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return ZERO
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def copy(self): return self
    def astype(self, t):
        from .arrays import cast
        return cast(self, t)
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def tolist(self): return self
    def reshape(self, *s):
        from .arrays import sarr
        return sarr([self]).reshape(*s)
    def flatten(self):
        from .arrays import sarr
        return sarr([self])
    ravel = flatten

    # names used by numpy's object loops
    def cos(self): return cos_(self)
    def sin(self): return sin_(self)
    def tan(self): return sin_(self) / cos_(self)
    def sqrt(self): return sqrt_(self)
    def exp(self): return exp_(self)
    def expm1(self): return exp_(self) - 1
    def log(self): return log_(self)
    def log10(self): return log_(self) / log_(lift(10))
    def log2(self): return log_(self) / log_(lift(2))
    def log1p(self): return log_(self + 1)
    def cosh(self): return (exp_(self) + exp_(-self)) * F(1, 2)
    def sinh(self): return (exp_(self) - exp_(-self)) * F(1, 2)
    def tanh(self): return self.sinh() / self.cosh()
    def arccosh(self): return log_(self + sqrt_(self * self - 1))
    def arcsinh(self): return log_(self + sqrt_(self * self + 1))
    def arctanh(self): return log_((1 + self) / (1 - self)) * F(1, 2)
    def arctan2(self, o): return atan2_(self, lift(o))
    def arctan(self): return atan2_(self, ONE)
    def floor(self): return floor_(self)
    def ceil(self): return -floor_(-self)
    def rint(self): return round_(self)
    def fabs(self): return abs_(self)
    def square(self): return self * self
    def sign(self): return sign_(self)
    def deg2rad(self): return self * PI / 180
    def rad2deg(self): return self * 180 / PI
    radians = deg2rad
    degrees = rad2deg
    def hypot(self, o): return sqrt_(self * self + lift(o) * lift(o))
    def reciprocal(self): return ONE / self

    def _sympy_(self):
        from .shims import R_to_sympy
        return R_to_sympy(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arrays import dispatch_ufunc
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arrays import dispatch_function
        return dispatch_function(func, args, kwargs)


_zero_div = None
ZERO = R({})
ONE = R({(): F(1)})


# --------------------------------------------------------------------------- helpers
def _inv_mono(m):
    res = ONE
    base = []
    for a, e in m:
        A = ATOMS[a]
        if A.kind in ("cos", "sin"):
            res = res * _den(R({((a, 1),): F(1)}), -1)
        elif A.kind == "exp":
            res = res * exp_(-A.args[0] * e)
        elif A.kind == "den":
            ee = -e
            if ee >= 1:
                k = math.floor(ee)
                for _ in range(int(k)):
                    res = res * A.args[0]
                ee = ee - k
            if ee:
                base.append((a, ee))
        elif A.kind == "ind":
            res = res * _den(R({((a, 1),): F(1)}), -1)
        else:
            base.append((a, -e))
    return res * R({tuple(base): F(1)}) if base else res


def content(x):
    """x = c * m * P with m a plain monomial, P primitive with canonical sign"""
    monos = list(x.p)
    exps = {}
    for i, m in enumerate(monos):
        d = {a: e for a, e in m if not ATOMS[a].special or ATOMS[a].kind == "den"}
        if i == 0:
            exps = dict(d)
        else:
            for a in list(exps):
                e = d.get(a, 0)
                if e < exps[a]:
                    exps[a] = e
            for a, e in d.items():
                if a not in exps and e < 0:
                    exps[a] = e
    m = tuple(sorted((a, e) for a, e in exps.items() if e != 0))
    P = x * _inv_mono(m) if m else x
    lead = min(P.p)
    c = P.p[lead]
    return c, m, R({k: v / c for k, v in P.p.items()})


def _den(P, e):
    a = atom("den", (P,), sign=("pos" if sign_of(P) == "pos" else None))
    return R({((a.id, e),): F(1)})


def sign_of(x):
    """'pos','nonneg','neg','nonpos','zero' or None by syntactic inference"""
    if not x.p:
        return "zero"
    tot = None
    for m, c in x.p.items():
        s = 1 if c > 0 else -1
        strict = True
        known = True
        for a, e in m:
            A = ATOMS[a]
            if A.sign == "pos":
                continue
            if e.__class__ is int and e % 2 == 0:
                strict = False
                continue
            if A.sign == "nonneg":
                strict = False
                continue
            if A.sign == "neg":
                if e.__class__ is int:
                    s = -s
                    continue
            known = False
            break
        if not known:
            return None
        if tot is None:
            tot = [s, strict]
        elif tot[0] != s:
            return None
        elif strict:
            tot[1] = True
    if tot[0] > 0:
        return "pos" if tot[1] else "nonneg"
    return "neg" if tot[1] else "nonpos"


def _has_trigexp(x):
    for m in x.p:
        for a, e in m:
            if ATOMS[a].kind in ("cos", "sin", "exp", "ind"):
                return True
    return False


def _ratio(x, y):
    """x / y when one is a rational multiple of a monomial times the other"""
    if len(x.p) != len(y.p) or len(y.p) == 1:
        return None
    cx, mx, Px = content(x)
    cy, my, Py = content(y)
    if Px.p == Py.p:
        r = R.const(cx / cy)
        if mx:
            r = r * R({mx: F(1)})
        if my:
            r = r * _inv_mono(my)
        return r
    return None


def poly_divide(N, P, maxsteps=4000):
    """exact division N/P of Laurent polys without trig/exp; None if not exact"""
    if _has_trigexp(N) or _has_trigexp(P):
        return None
    # work on true polynomials in the lexicographic order by dense exponents
    atoms = sorted({a for m in list(N.p) + list(P.p) for a, _ in m})
    if any(ATOMS[a].special for a in atoms if ATOMS[a].kind != "den"):
        return None
    idx = {a: i for i, a in enumerate(atoms)}

    def dense(p):
        out = {}
        for m, c in p.items():
            v = [0] * len(atoms)
            for a, e in m:
                v[idx[a]] = e
            out[tuple(v)] = c
        return out
    n, d = dense(N.p), dense(P.p)
    ld = max(d)
    q = {}
    steps = 0
    lowbound = min(n) if n else None
    while n:
        steps += 1
        if steps > maxsteps:
            return None
        ln = max(n)
        t = tuple(x - y for x, y in zip(ln, ld))
        c = n[ln] / d[ld]
        q[t] = q.get(t, 0) + c
        for m, cc in d.items():
            k = tuple(x + y for x, y in zip(m, t))
            v = n.get(k, 0) - c * cc
            if v:
                n[k] = v
            else:
                n.pop(k, None)
        if n and min(n) < lowbound:
            return None
        if len(n) > 3 * (len(N.p) + len(P.p)) + 50:
            return None
    res = {}
    for v, c in q.items():
        if c:
            res[tuple((a, e) for a, e in zip(atoms, v) if e != 0)] = c
    # exponents on den atoms >=1 must not appear: re-multiply for safety
    out = ZERO
    for m, c in res.items():
        t = R.const(c)
        for a, e in m:
            if ATOMS[a].kind == "den" and e >= 1:
                t = t * (ATOMS[a].args[0] ** int(e))
            else:
                t = t * R({((a, e),): F(1)})
        out = out + t
    return out


def _den_exps(x):
    r = {}
    for m in x.p:
        for a, e in m:
            if ATOMS[a].kind == "den" and e < 0:
                r[a] = min(r.get(a, 0), e)
    return r


def cancel(x):
    """try to cancel den atoms against the numerator"""
    ds = _den_exps(x)
    if not ds or len(x.p) > 400:
        return x
    for a, e in sorted(ds.items()):
        if e.__class__ is not int:
            continue
        P = ATOMS[a].args[0]
        cur, k = x, e
        while k < 0:
            # multiply by P once; if the result is divisible by P beyond trivial, keep
            group_has = {}
            for m, c in cur.p.items():
                ee = 0
                for aa, b in m:
                    if aa == a:
                        ee = b
                group_has.setdefault(ee, {})[m] = c
            low = min(group_has)
            if low >= 0:
                break
            top = R(group_has[low])
            # strip the den power
            N = R({tuple(t for t in m if t[0] != a): c for m, c in top.p.items()})
            q = poly_divide(N, P) if len(N.p) >= 2 else None
            if q is None:
                break
            rest = {m: c for ee, g in group_has.items() if ee != low for m, c in g.items()}
            lowered = q * R({((a, low + 1),): F(1)}) if low + 1 < 0 else q
            cur = R(rest) + lowered
            k += 1
        x = cur
    return x


def canon(x):
    return cancel(x)


MAXTERMS = 20000


def together(x, limit=60):
    """numerator of x after clearing all (non-zero) denominators"""
    for _ in range(limit):
        if len(x.p) > MAXTERMS:
            break
        neg = {}
        for m in x.p:
            for a, e in m:
                if e < 0 and e < neg.get(a, 0):
                    neg[a] = e
        if not neg:
            return x
        # clear outer (highest-id) den first: inner dens have smaller ids
        a = max(neg)
        e = neg[a]
        A = ATOMS[a]
        out = ZERO
        if A.kind == "den":
            k = math.ceil(-e)
            for m, c in x.p.items():
                ee = 0
                rest = []
                for aa, b in m:
                    if aa == a:
                        ee = b
                    else:
                        rest.append((aa, b))
                t = R({tuple(rest): c})
                ne = ee + k
                kk = math.floor(ne)
                fr = ne - kk
                for _ in range(int(kk)):
                    t = t * A.args[0]
                if fr:
                    t = t * R({((a, fr),): F(1)})
                out = out + t
        else:
            out = x * R({((a, -e),): F(1)})
        x = out
    raise Unsupported("could not clear denominators")


def is_zero(x):
    if not x.p:
        return True
    if x.constant() is not None:
        return False
    return not together(x).p


# --------------------------------------------------------------------------- functions
def pow_(x, y):
    c = y.constant()
    if c is not None:
        if x.absof is not None and c.denominator == 1 and c % 2 == 0:
            x = x.absof
        if c.denominator == 1:
            n = int(c)
            if n == 0:
                return ONE
            if n < 0:
                return pow_(x.inv(), R.const(-n))
            r = None
            b = x
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if c.denominator == 2:
            s = sqrt_(x)
            return pow_(s, R.const(c.numerator))
    cx = x.constant()
    if cx == 1:
        return ONE
    if cx == 0:
        return ZERO
    return exp_(y * log_(x))


def _isqrt_frac(c):
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return F(a, b)
    return None


def _sqrt_const(c):
    r = _isqrt_frac(c)
    if r is not None:
        return R.const(r)
    # c = n/d -> sqrt(n d)/d, squarefree part
    n = c.numerator * c.denominator
    sq = 1
    k = 2
    while k * k <= n and k < 1000:
        while n % (k * k) == 0:
            n //= k * k
            sq *= k
        k += 1
    a = atom("sqrtq", (R.const(n),), sign="pos")
    return R({((a.id, 1),): F(sq, c.denominator)})


def sqrt_(x):
    c = x.constant()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        return _sqrt_const(c) if c else ZERO
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c > 0:
            r = _sqrt_const(c)
            neg = False
            rest = []
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "exp":
                    r = r * exp_(A.args[0] * e * F(1, 2))
                elif A.kind == "den":
                    if A.sign == "pos" or e % 2 == 0:
                        if e % 2 == 0 and A.sign != "pos":
                            r = r * abs_(R({((a, e // 2),): F(1)}))
                        else:
                            r = r * _den_pow(A, F(e) / 2)
                    else:
                        rest.append((a, e))
                elif A.sign == "pos" and A.kind not in ("cos", "sin", "ind", "abs", "sqrtq"):
                    h = F(e) / 2
                    r = r * R({((a, int(h) if h.denominator == 1 else h),): F(1)})
                elif e.__class__ is int and e % 2 == 0:
                    r = r * abs_(R({((a, e // 2),): F(1)}))
                else:
                    rest.append((a, e))
            if not rest:
                return r
            return r * _den(R({tuple(rest): F(1)}), F(1, 2))
        return _den(x, F(1, 2))
    c, m, P = content(x)
    if c < 0:
        c, P = -c, -P
    mm = R({m: F(1)}) if m else ONE
    pos = all(ATOMS[a].sign == "pos" or (isinstance(e, int) and e % 2 == 0) for a, e in m)
    if not pos:
        # keep odd, unsigned factors inside
        ins = tuple((a, e) for a, e in m if not (ATOMS[a].sign == "pos" or (isinstance(e, int) and e % 2 == 0)))
        out = tuple(t for t in m if t not in ins)
        mm = R({out: F(1)}) if out else ONE
        P = P * R({ins: F(1)})
    q = _perfect_square(P)
    if q is not None:
        return _sqrt_const(c) * sqrt_(mm) * abs_(q)
    return _sqrt_const(c) * (sqrt_(mm) if mm is not ONE else ONE) * _den(P, F(1, 2))


def _perfect_square(P):
    """q with q*q == P for 3-, 6-term squares (heuristic), else None"""
    if len(P.p) not in (3, 6) or _has_trigexp(P):
        return None
    roots = []
    for m, c in P.p.items():
        if c > 0 and all(isinstance(e, int) and e % 2 == 0 for a, e in m):
            r = _isqrt_frac(c)
            if r is not None:
                roots.append(R({tuple((a, e // 2) for a, e in m): r}))
    need = 2 if len(P.p) == 3 else 3
    if len(roots) != need:
        return None
    import itertools
    for signs in itertools.product((1, -1), repeat=need - 1):
        q = roots[0]
        for s, r in zip(signs, roots[1:]):
            q = q + r * s
        if (q * q).p == P.p:
            return q
    return None


def _den_pow(A, e):
    """atom A (kind den) to a possibly positive rational power"""
    k = math.floor(e)
    fr = e - k
    r = ONE
    if k >= 1:
        r = A.args[0] ** int(k)
        e = fr
    if e == 0:
        return r
    if isinstance(e, F) and e.denominator == 1:
        e = int(e)
    return r * R({((A.id, e),): F(1)})


def _split_pi(x):
    """x = q*pi + rest ; also drops 2*pi*integer terms.  returns q, rest, parity"""
    q = F(0)
    rest = {}
    par = []
    for m, c in x.p.items():
        if m == ((PI_ID, 1),):
            q += c
            continue
        d = dict(m)
        if d.get(PI_ID) == 1 and c.denominator == 1:
            others = [(a, e) for a, e in m if a != PI_ID]
            if all(ATOMS[a].integer and isinstance(e, int) and e > 0 for a, e in others):
                if c % 2 == 0:
                    continue
        rest[m] = c
    return q, R(rest)


_EXACT = {}


def _cos_q(q):
    """cos(q*pi) for rational q as R"""
    q = q % 2
    if q > 1:
        q = 2 - q
    if q > F(1, 2):
        return -_cos_q(1 - q)
    t = {F(0): ONE, F(1, 3): R.const(F(1, 2)), F(1, 2): ZERO}
    if q in t:
        return t[q]
    if q == F(1, 4):
        return _sqrt_const(F(1, 2))
    if q == F(1, 6):
        return _sqrt_const(F(3, 4))
    if q == F(1, 12):
        return (_sqrt_const(F(6)) + _sqrt_const(F(2))) / 4
    if q == F(5, 12):
        return (_sqrt_const(F(6)) - _sqrt_const(F(2))) / 4
    return atom_R(atom("cosq", (R.const(q),), sign="pos"))


def _sin_q(q):
    return _cos_q(F(1, 2) - q)


def _atan_part(x):
    """split off n*atan2(..) terms with integer n; returns [(n, y, x)], rest"""
    parts = []
    rest = {}
    for m, c in x.p.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "atan2" and c.denominator == 1:
            A = ATOMS[m[0][0]]
            parts.append((int(c), A.args[0], A.args[1]))
        else:
            rest[m] = c
    return parts, R(rest)


def _cs_atan(n, y, x):
    """(cos, sin)(n*atan2(y,x))"""
    r2 = x * x + y * y
    s = 1 if n >= 0 else -1
    n = abs(n)
    re, im = ONE, ZERO
    for _ in range(n):
        re, im = re * x - im * y, re * y + im * x
    rn = pow_(r2, R.const(F(n, 2)))
    return re / rn, (im / rn) * s


def _canon_angle(x):
    """canonical sign: returns (angle, flipped)"""
    lead = min(x.p)
    if x.p[lead] < 0:
        return -x, True
    return x, False


def cos_(x):
    return _trig(canon(x))[0]


def sin_(x):
    return _trig(canon(x))[1]


def _trig(x):
    parts, rest0 = _atan_part(x)
    if parts:
        c, s = _trig(rest0)
        for n, yy, xx in parts:
            c2, s2 = _cs_atan(n, yy, xx)
            c, s = c * c2 - s * s2, s * c2 + c * s2
        return c, s
    q, rest = _split_pi(x)
    if not rest.p:
        return _cos_q(q), _sin_q(q)
    a, flip = _canon_angle(rest)
    c = R({((atom("cos", (a,)).id, 1),): F(1)})
    s = R({((atom("sin", (a,)).id, 1),): F(1)})
    if flip:
        s = -s
    if q == 0:
        return c, s
    cq, sq = _cos_q(q), _sin_q(q)
    return c * cq - s * sq, s * cq + c * sq


def exp_(x):
    x = canon(x)
    if not x.p:
        return ONE
    # pull out n*log(y)
    rest = {}
    fac = ONE
    for m, c in x.p.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log" and c.denominator in (1, 2):
            fac = fac * pow_(ATOMS[m[0][0]].args[0], R.const(c))
        else:
            rest[m] = c
    r = R(rest)
    if not r.p:
        return fac
    a = atom("exp", (r,), sign="pos")
    e = R({((a.id, 1),): F(1)})
    return e if fac is ONE else fac * e


def log_(x):
    x = canon(x)
    c = x.constant()
    if c == 1:
        return ZERO
    if c is not None and c <= 0:
        raise Unsupported("log of non-positive constant")
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c > 0:
            r = ZERO
            rest = []
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "exp":
                    r = r + A.args[0] * e
                elif A.kind == "den" and A.sign == "pos":
                    r = r + atom_R(atom("log", (A.args[0],))) * e
                elif A.sign in ("pos", "nonneg"):
                    r = r + atom_R(atom("log", (R({((a, 1),): F(1)}),))) * e
                else:
                    rest.append((a, e))
            if c != 1:
                r = r + atom_R(atom("log", (R.const(c),)))
            if rest:
                r = r + atom_R(atom("log", (R({tuple(rest): F(1)}),)))
            return r
    return atom_R(atom("log", (x,)))


def abs_(x):
    r = _abs(x)
    if r is not x and r.constant() is None:
        r = R(dict(r.p))
        r.absof = x
    return r


def _abs(x):
    x = canon(x)
    s = sign_of(x)
    if s in ("pos", "nonneg", "zero"):
        return x
    if s in ("neg", "nonpos"):
        return -x
    if len(x.p) == 1:
        (m, c), = x.p.items()
        r = R.const(abs(c))
        for a, e in m:
            A = ATOMS[a]
            t = R({((a, e),): F(1)})
            if A.sign in ("pos", "nonneg") or (isinstance(e, int) and e % 2 == 0):
                r = r * t
            elif A.kind == "den" and e == -1:
                r = r * abs_(A.args[0]).inv()
            elif isinstance(e, int):
                base = R({((a, 1),): F(1)})
                b = R({((atom("abs", (base,), sign="nonneg").id, 1),): F(1)})
                r = r * (pow_(b, R.const(e)))
            else:
                r = r * t
        return r
    c, m, P = content(x)
    b = R({((atom("abs", (P,), sign="nonneg").id, 1),): F(1)})
    r = b * abs(c)
    if m:
        r = r * abs_(R({m: F(1)}))
    return r


def _int_part(x):
    ip, rest = {}, {}
    for m, c in x.p.items():
        if c.denominator == 1 and all(ATOMS[a].integer and isinstance(e, int) and e > 0 for a, e in m):
            ip[m] = c
        elif not m:
            f = c.numerator // c.denominator
            if f:
                ip[m] = F(f)
            if c - f:
                rest[m] = c - f
        else:
            rest[m] = c
    return R(ip), R(rest)


def floor_(x):
    x = canon(x)
    ip, rest = _int_part(x)
    c = rest.constant()
    if c is not None:
        return ip + math.floor(c)
    at = atom_R(atom("floor", (rest,), integer=True))
    if SMALLINT is not None:
        v = SMALLINT(at)
        if v is not None:
            return ip + v
    return ip + at


def round_(x, n=None):
    if n is not None and not isinstance(n, R):
        n = int(n)
    elif isinstance(n, R):
        n = int(n)
    c = x.constant()
    if c is not None:
        return R.const(rational(round(float(c), n) if n is not None else round(float(c))))
    ip, rest = _int_part(x)
    if not rest.p:
        return x
    if n:
        k = 10 ** n if n > 0 else F(1, 10 ** -n)
        return atom_R(atom("round", (x * k,), integer=True)) / k
    if rest.constant() is not None:
        return ip + round(rest.constant())
    return atom_R(atom("round", (x,), integer=True))


def sign_(x):
    s = sign_of(x)
    if s == "pos":
        return ONE
    if s == "neg":
        return -ONE
    if s == "zero":
        return ZERO
    return lt0(-x).as_R() - lt0(x).as_R()


def atan2_(y, x):
    y, x = canon(y), canon(x)
    cy, cx = y.constant(), x.constant()
    if cy is not None and cx is not None:
        if cy == 0:
            return ZERO if cx >= 0 else PI
        if cx == 0:
            return PI / 2 if cy > 0 else -PI / 2
        if cy == cx:
            return PI / 4 if cy > 0 else -PI * F(3, 4)
    # scale out a common positive content
    return atom_R(atom("atan2", (y, x)))


def max2(a, b):
    a, b = lift(a), lift(b)
    return a if bool(a >= b) else b


def min2(a, b):
    a, b = lift(a), lift(b)
    return a if bool(a <= b) else b


def ite(c, a, b):
    if isinstance(c, SB):
        if c.kind == "c":
            return a if c.args else b
        i = c.as_R()
        return i * lift(a) + (1 - i) * lift(b)
    return a if c else b


# --------------------------------------------------------------------------- booleans
class SB:
    """symbolic boolean; bool() forks the current path"""
    __slots__ = ("kind", "args", "key")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self.key = ("SB", kind, args if kind == "c" else
                    (args.key if isinstance(args, (R, SB)) else tuple(a.key for a in args)))

    def __hash__(self):
        return hash(self.key)

    def __bool__(self):
        if self.kind == "c":
            return self.args
        if BRANCH is None:
            raise Unsupported("branch on a symbolic condition outside exploration")
        return BRANCH(self)

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = to_SB(o)
        return or_(and_(self, not_(o)), and_(not_(self), o))
    __rxor__ = __xor__

    def as_R(self):
        if self.kind == "c":
            return ONE if self.args else ZERO
        if self.kind in ("lt", "le"):
            # canonical polarity: I(x<0) = 1 - I(-x<=0)
            if self.kind == "lt":
                return ONE - _ind(not_(self))
            return _ind(self)
        if self.kind == "not":
            return ONE - self.args.as_R()
        if self.kind == "and":
            r = ONE
            for a in self.args:
                r = r * a.as_R()
            return r
        if self.kind == "or":
            r = ONE
            for a in self.args:
                r = r * (ONE - a.as_R())
            return ONE - r
        return _ind(self)

    def __add__(self, o):
        return self.as_R() + (o.as_R() if isinstance(o, SB) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_R() - (o.as_R() if isinstance(o, SB) else o)

    def __rsub__(self, o):
        return lift(o) - self.as_R()

    def __mul__(self, o):
        if isinstance(o, SB):
            return and_(self, o)
        if isinstance(o, bool):
            return and_(self, SB_const(o))
        return self.as_R() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.as_R() / o

    def __eq__(self, o):
        if isinstance(o, (SB, bool)):
            o = to_SB(o)
            return not_(self ^ o)
        return self.as_R() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r) if isinstance(r, SB) else not r

    def __lt__(self, o): return self.as_R() < o
    def __le__(self, o): return self.as_R() <= o
    def __gt__(self, o): return self.as_R() > o
    def __ge__(self, o): return self.as_R() >= o
    def __neg__(self): return -self.as_R()
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __float__(self): return float(bool(self))
    def __deepcopy__(self, memo): return self
    def __repr__(self): return "[%s]" % show_sb(self)
    def logical_not(self): return not_(self)
    def all(self): return self
    def any(self): return self
    def astype(self, t):
        from .arrays import cast
        return cast(self, t)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arrays import dispatch_ufunc
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arrays import dispatch_function
        return dispatch_function(func, args, kwargs)


BRANCH = None
TRUE = SB("c", True)
FALSE = SB("c", False)


def SB_const(b):
    return TRUE if b else FALSE


def to_SB(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, R):
        return not_(eq0(x))
    return SB_const(bool(x))


def _ind(sb):
    if sb.kind == "c":
        return sb.as_R()
    return atom_R(atom("ind", (sb,), sign="nonneg"))


def _pos_norm(x):
    """divide by a positive rational and positive atoms"""
    c, m, P = content(x)
    if any(ATOMS[a].sign != "pos" for a, e in m):
        keep = tuple((a, e) for a, e in m if ATOMS[a].sign != "pos")
        P = P * R({keep: F(1)})
    return P if c > 0 else -P


def le0(x):
    x = canon(x)
    s = sign_of(x)
    if s in ("zero", "neg", "nonpos"):
        return TRUE
    if s == "pos":
        return FALSE
    c = x.constant()
    if c is not None:
        return SB_const(c <= 0)
    if is_zero(x):
        return TRUE
    return SB("le", _pos_norm(x))


def lt0(x):
    x = canon(x)
    s = sign_of(x)
    if s == "neg":
        return TRUE
    if s in ("zero", "pos", "nonneg"):
        return FALSE
    c = x.constant()
    if c is not None:
        return SB_const(c < 0)
    if is_zero(x):
        return FALSE
    return SB("lt", _pos_norm(x))


def eq0(x):
    x = canon(x)
    s = sign_of(x)
    if s == "zero":
        return TRUE
    if s in ("pos", "neg"):
        return FALSE
    c = x.constant()
    if c is not None:
        return SB_const(c == 0)
    if is_zero(x):
        return TRUE
    c, m, P = content(x)
    if m:
        # drop factors known non-zero
        keep = tuple((a, e) for a, e in m if e > 0 and ATOMS[a].sign != "pos")
        if keep:
            P = P * R({keep: F(1)})
    if sign_of(P) in ("pos", "neg"):
        return FALSE
    return SB("eq", P)


def not_(a):
    a = to_SB(a)
    if a.kind == "c":
        return SB_const(not a.args)
    if a.kind == "not":
        return a.args
    if a.kind == "le":
        return SB("lt", -a.args)
    if a.kind == "lt":
        return SB("le", -a.args)
    if a.kind == "and":
        return or_(*[not_(x) for x in a.args])
    if a.kind == "or":
        return and_(*[not_(x) for x in a.args])
    return SB("not", a)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = to_SB(x)
        if x.kind == "c":
            if not x.args:
                return FALSE
            continue
        for y in (x.args if x.kind == "and" else (x,)):
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    for y in out:
        if not_(y).key in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SB("and", tuple(out))


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = to_SB(x)
        if x.kind == "c":
            if x.args:
                return TRUE
            continue
        for y in (x.args if x.kind == "or" else (x,)):
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SB("or", tuple(out))


# --------------------------------------------------------------------------- concretisation
CONCRETISE = None
SMALLINT = None      # hook: the value of an integer atom with at most three feasible values


def concretise_int(x, exact=False):
    """int(x) for symbolic x: fork over the feasible integer values"""
    c = x.constant()
    if c is not None:
        return int(c)
    nc = numeric_const(x)
    if nc is not None:
        r = round(nc)
        return int(r) if abs(nc - r) < 1e-9 else int(nc)
    if CONCRETISE is None:
        raise Unsupported("int() of a symbolic value")
    return CONCRETISE(x, exact)


def numeric_const(x):
    """float value if x contains only physical/mathematical constants"""
    try:
        return ev(x, {}, consts_only=True)
    except KeyError:
        return None


# --------------------------------------------------------------------------- evaluation
def ev(x, env, uf_eval=None, consts_only=False, memo=None):
    """numeric value under env: {var name: float}"""
    if memo is None:
        memo = {}

    def atom_val(i):
        if i in memo:
            return memo[i]
        A = ATOMS[i]
        k = A.kind
        if k == "var":
            if A.name in env:
                v = float(env[A.name])
            elif A.value is not None:
                v = A.value
            else:
                raise KeyError(A.name)
        elif k == "uf":
            if uf_eval is None:
                raise KeyError(A.name)
            v = uf_eval(A.name, [go(a) for a in A.args], A.sign)
        elif k == "den":
            v = go(A.args[0])
        elif k == "sqrtq":
            v = math.sqrt(go(A.args[0]))
        elif k == "cosq":
            v = math.cos(go(A.args[0]) * math.pi)
        elif k == "cos":
            v = math.cos(go(A.args[0]))
        elif k == "sin":
            v = math.sin(go(A.args[0]))
        elif k == "exp":
            v = math.exp(min(go(A.args[0]), 700))
        elif k == "log":
            v = math.log(max(go(A.args[0]), 1e-300))
        elif k == "abs":
            v = abs(go(A.args[0]))
        elif k == "floor":
            v = math.floor(go(A.args[0]))
        elif k == "round":
            v = float(round(go(A.args[0])))
        elif k == "atan2":
            v = math.atan2(go(A.args[0]), go(A.args[1]))
        elif k == "ind":
            v = 1.0 if ev_sb(A.args[0], env, uf_eval, memo) else 0.0
        else:
            raise Unsupported("eval " + k)
        memo[i] = v
        return v

    def go(e):
        t = 0.0
        for m, c in e.p.items():
            v = float(c)
            for a, ex in m:
                b = atom_val(a)
                if isinstance(ex, int):
                    v *= b ** ex
                else:
                    v *= max(b, 0.0) ** float(ex)
            t += v
        return t
    return go(x)


def ev_sb(s, env, uf_eval=None, memo=None):
    k = s.kind
    if k == "c":
        return s.args
    if k == "le":
        return ev(s.args, env, uf_eval, memo=memo) <= 0
    if k == "lt":
        return ev(s.args, env, uf_eval, memo=memo) < 0
    if k == "eq":
        return abs(ev(s.args, env, uf_eval, memo=memo)) < 1e-12
    if k == "not":
        return not ev_sb(s.args, env, uf_eval, memo)
    if k == "and":
        return all(ev_sb(a, env, uf_eval, memo) for a in s.args)
    return any(ev_sb(a, env, uf_eval, memo) for a in s.args)


def atoms_of(x, acc=None):
    """all atom ids occurring in x, transitively"""
    if acc is None:
        acc = set()
    stack = [x]
    while stack:
        e = stack.pop()
        if isinstance(e, SB):
            if e.kind == "c":
                continue
            stack.extend([e.args] if isinstance(e.args, (R, SB)) else list(e.args))
            continue
        for m in e.p:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    for y in ATOMS[a].args:
                        if isinstance(y, (R, SB)):
                            stack.append(y)
    return acc


def show_atom(A):
    if A.kind in ("var",):
        return A.name
    if A.kind == "den":
        return "(%s)" % show(A.args[0])
    nm = A.name or A.kind
    return "%s(%s)" % (nm, ",".join(show(a) if isinstance(a, R) else show_sb(a) if isinstance(a, SB) else str(a) for a in A.args))


def show(x, limit=12):
    if not x.p:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(x.p.items(), key=lambda t: t[0])):
        if i >= limit:
            out.append("...(%d terms)" % len(x.p))
            break
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for a, e in m:
            s = show_atom(ATOMS[a])
            f.append(s if e == 1 else "%s^%s" % (s, e))
        out.append("*".join(f))
    return " + ".join(out)


def show_sb(s):
    if s.kind == "c":
        return str(s.args)
    if s.kind in ("le", "lt", "eq"):
        return show(s.args) + {"le": " <= 0", "lt": " < 0", "eq": " == 0"}[s.kind]
    if s.kind == "not":
        return "not(%s)" % show_sb(s.args)
    return (" %s " % s.kind).join("(%s)" % show_sb(a) for a in s.args)


# --------------------------------------------------------------------------- constants
PI = None
PI_ID = None
CONSTS = {}


def _init_consts():
    global PI, PI_ID
    from scipy import constants as sc
    PI = var("pi", "pos", value=math.pi)
    (m, _), = PI.p.items()
    PI_ID = m[0][0]
    CONSTS.clear()
    CONSTS["pi"] = PI
    for n, v in (("q_e", sc.elementary_charge), ("hbar", sc.hbar), ("k_B", sc.Boltzmann),
                 ("m_e", sc.electron_mass)):
        CONSTS[n] = var(n, "pos", value=v)


_init_consts()
