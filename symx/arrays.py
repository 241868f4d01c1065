"""Symbolic arrays: numpy object arrays of R / SB with numpy semantics."""
import itertools
import math
import numpy as np
from fractions import Fraction as F
from . import terms as T
from .terms import R, SB, lift, Unsupported

_FLOATY = (float, np.float64, np.float32, np.floating, np.longdouble, complex, np.complex128)


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt in (float, complex) or dt in ("float", "float64", "f8", "d", "f", "complex"):
        return True
    try:
        return np.dtype(dt).kind in "fc"
    except TypeError:
        return False


def is_int_dtype(dt):
    if dt is None or dt is object:
        return False
    try:
        return np.dtype(dt).kind in "iu"
    except TypeError:
        return False


def is_bool_dtype(dt):
    if dt is None or dt is object:
        return False
    try:
        return np.dtype(dt).kind == "b"
    except TypeError:
        return False


def cast(x, t):
    """scalar cast of a symbolic value"""
    if is_int_dtype(t):
        return int(x)
    if is_bool_dtype(t):
        return bool(x)
    if isinstance(x, SB):
        return x.as_R()
    return x


class SArr(np.ndarray):
    __array_priority__ = 500

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    def astype(self, dtype, *a, **k):
        if is_int_dtype(dtype):
            return np.array([int(x) for x in self.ravel().tolist_()], dtype=int).reshape(self.shape)
        if is_bool_dtype(dtype):
            return np.array([bool(x) for x in self.ravel().tolist_()], dtype=bool).reshape(self.shape)
        return sarr([x.as_R() if isinstance(x, SB) else x for x in self.ravel().tolist_()]).reshape(self.shape)

    def tolist_(self):
        return list(np.ndarray.tolist(self))

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _fix_index(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = sarr(v)
        elif not isinstance(v, np.ndarray):
            if isinstance(v, (list, tuple)):
                v = sarr(v)
            elif v is not None and not isinstance(v, (R, SB)):
                v = lift(v)
        np.ndarray.__setitem__(self, _fix_index(k), v)

    def __deepcopy__(self, memo):
        return np.ndarray.copy(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        raise ValueError("truth value of an array is ambiguous")

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise TypeError("only size-1 arrays")

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def dot(self, o):
        return np.dot(self, o)

    def all(self, axis=None, **k):
        return _all(self, axis)

    def any(self, axis=None, **k):
        return _any(self, axis)

    def _count(self, axis):
        if axis is None:
            return self.size
        n = 1
        for i in (axis if isinstance(axis, tuple) else (axis,)):
            n *= self.shape[i]
        return n

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _red("add")(self, axis=axis, keepdims=keepdims) / self._count(axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        d = self - self.mean(axis=axis, keepdims=True)
        return np.sqrt(_red("add")(d * d, axis=axis, keepdims=keepdims) / (self._count(axis) - ddof))

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        return self.std(axis, ddof=ddof, keepdims=keepdims) ** 2

    def round(self, n=0, **k):
        return _map(lambda x: T.round_(lift(x), n), self)

    def clip(self, lo=None, hi=None, **k):
        return _clip(self, lo, hi)

    def argmax(self, axis=None, **k):
        return _argm(self, axis, max=True)

    def argmin(self, axis=None, **k):
        return _argm(self, axis, max=False)

    def max(self, axis=None, **k):
        return np.maximum.reduce(self.ravel() if axis is None else self, axis=0 if axis is None else axis)

    def min(self, axis=None, **k):
        return np.minimum.reduce(self.ravel() if axis is None else self, axis=0 if axis is None else axis)

    def sort(self, axis=-1, **k):
        self[...] = _sort(self, axis)

    def argsort(self, axis=-1, **k):
        return _argsort(self, axis)

    def nonzero(self):
        return np.nonzero(np.array([bool(x) for x in self.ravel().tolist_()]).reshape(self.shape))


def _fix_index(k):
    if isinstance(k, tuple):
        return tuple(_fix1(x) for x in k)
    return _fix1(k)


def _fix1(k):
    if isinstance(k, R):
        return int(k)
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, slice):
        return slice(*[int(x) if isinstance(x, R) else x for x in (k.start, k.stop, k.step)])
    if isinstance(k, np.ndarray) and k.dtype == object:
        fl = list(np.ndarray.tolist(k.ravel()))
        if fl and all(isinstance(x, (SB, bool, np.bool_)) for x in fl):
            return np.array([bool(x) for x in fl], dtype=bool).reshape(k.shape)
        return np.array([int(x) for x in fl], dtype=int).reshape(k.shape)
    if isinstance(k, list) and any(isinstance(x, (R, SB)) for x in k):
        return _fix1(sarr(k))
    return k


def _conv(x):
    if isinstance(x, (R, SB)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return T.SB_const(bool(x))
    if x is None:
        return None
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return f
    return lift(x)


def has_sym(x):
    if isinstance(x, (R, SB, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def sarr(x, dtype=None):
    """convert anything array-like to an SArr"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        if x.size:
            out.reshape(-1)[:] = [_conv(v) for v in x.reshape(-1).tolist()] if x.size > 1 else [_conv(x.reshape(-1)[0])]
        return out.view(SArr)
    if isinstance(x, (R, SB)):
        out = np.empty((), dtype=object)
        out[()] = x
        return out.view(SArr)
    if isinstance(x, (list, tuple)):
        parts = [sarr(i) if isinstance(i, (list, tuple, np.ndarray)) else i for i in x]
        if not parts:
            return np.empty((0,), dtype=object).view(SArr)
        if any(isinstance(p, np.ndarray) for p in parts):
            shp = {p.shape if isinstance(p, np.ndarray) else () for p in parts}
            if len(shp) != 1:
                raise ValueError("inhomogeneous array")
            s = parts[0].shape
            out = np.empty((len(parts),) + s, dtype=object)
            for i, p in enumerate(parts):
                out[i] = p if p.ndim else p[()]
            return out.view(SArr)
        out = np.empty((len(parts),), dtype=object)
        for i, p in enumerate(parts):
            out[i] = _conv(p)
        return out.view(SArr)
    if isinstance(x, range) or hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        return sarr(list(x))
    out = np.empty((), dtype=object)
    out[()] = _conv(x)
    return out.view(SArr)


def wrap(x):
    if isinstance(x, SArr):
        return x if x.ndim else x[()]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return sarr(x).view(SArr) if x.ndim else _conv(x[()])
        return x
    if isinstance(x, tuple):
        return tuple(wrap(i) for i in x)
    if isinstance(x, list):
        return [wrap(i) for i in x]
    return x


def raw(x):
    """base-class view for calling into numpy"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (R, SB)):
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    if isinstance(x, (list, tuple)) and has_sym(x):
        if any(isinstance(i, np.ndarray) for i in x):
            return type(x)(raw(i) if isinstance(i, np.ndarray) else i for i in x)
        return sarr(x).view(np.ndarray)
    return x


def _map(f, *arrs):
    bs = np.broadcast_arrays(*[a.view(np.ndarray) if isinstance(a, np.ndarray) else sarr(a).view(np.ndarray) for a in arrs])
    shape = bs[0].shape
    out = np.empty(shape, dtype=object)
    o = out.reshape(-1)
    its = [b.reshape(-1) if b.flags["C_CONTIGUOUS"] else b.flatten() for b in bs]
    for i in range(o.size):
        o[i] = f(*[it[i] for it in its])
    out = o.reshape(shape)
    if not shape:
        return out[()]
    return out.view(SArr)


def _n(x):
    """element to R"""
    return lift(x)


def _inf_ok(f):
    def g(a, b):
        if isinstance(a, float) or isinstance(b, float):
            return f(a, b)
        return f(lift(a) if not isinstance(a, SB) else a.as_R(), lift(b) if not isinstance(b, SB) else b.as_R())
    return g


def _none_ok(f, r):
    return lambda a, b: T.SB_const(r) if a is None or b is None else f(a, b)


def _safe_div(a, b):
    a, b = lift(a), lift(b)
    c = b.constant()
    if c == 0 and a.constant() is not None:
        ca = a.constant()
        return math.nan if ca == 0 else math.copysign(math.inf, ca)
    if c == 0:
        raise Unsupported("array division of a symbolic value by zero")
    return a / b


def _isclose(a, b, rtol=1e-05, atol=1e-08):
    return T.le0(abs(lift(a) - lift(b)) - (lift(atol) + lift(rtol) * abs(lift(b))))


UF = {
    "less": _inf_ok(lambda a, b: a < b), "less_equal": _inf_ok(lambda a, b: a <= b),
    "greater": _inf_ok(lambda a, b: a > b), "greater_equal": _inf_ok(lambda a, b: a >= b),
    "equal": _none_ok(_inf_ok(lambda a, b: a == b), False), "not_equal": _none_ok(_inf_ok(lambda a, b: a != b), True),
    "logical_and": lambda a, b: T.and_(a, b), "logical_or": lambda a, b: T.or_(a, b),
    "logical_not": lambda a: T.not_(a), "logical_xor": lambda a, b: T.to_SB(a) ^ T.to_SB(b),
    "bitwise_and": lambda a, b: T.and_(a, b), "bitwise_or": lambda a, b: T.or_(a, b),
    "bitwise_xor": lambda a, b: T.to_SB(a) ^ T.to_SB(b),
    "invert": lambda a: T.not_(a),
    "isnan": lambda a: T.SB_const(isinstance(a, float) and math.isnan(a)),
    "isinf": lambda a: T.SB_const(isinstance(a, float) and math.isinf(a)),
    "isfinite": lambda a: T.SB_const(not isinstance(a, float)),
    "maximum": lambda a, b: T.max2(a, b), "fmax": lambda a, b: T.max2(a, b),
    "minimum": lambda a, b: T.min2(a, b), "fmin": lambda a, b: T.min2(a, b),
    "add": lambda a, b: a + b if isinstance(a, R) else _n(a) + _n(b),
    "subtract": lambda a, b: _n(a) - _n(b),
    "multiply": lambda a, b: T.and_(a, b) if isinstance(a, SB) and isinstance(b, SB) else _n(a) * _n(b),
    "true_divide": _safe_div, "divide": _safe_div,
    "floor_divide": lambda a, b: _n(a) // _n(b), "remainder": lambda a, b: _n(a) % _n(b),
    "mod": lambda a, b: _n(a) % _n(b),
    "fmod": lambda a, b: _fmod(_n(a), _n(b)),
    "power": lambda a, b: T.pow_(_n(a), _n(b)), "float_power": lambda a, b: T.pow_(_n(a), _n(b)),
    "negative": lambda a: -_n(a), "positive": lambda a: _n(a),
    "absolute": lambda a: abs(_n(a)), "fabs": lambda a: abs(_n(a)),
    "sqrt": lambda a: T.sqrt_(_n(a)), "square": lambda a: _n(a) * _n(a), "cbrt": lambda a: T.pow_(_n(a), lift(F(1, 3))),
    "reciprocal": lambda a: T.ONE / _n(a),
    "cos": lambda a: T.cos_(_n(a)), "sin": lambda a: T.sin_(_n(a)), "tan": lambda a: _n(a).tan(),
    "exp": lambda a: T.exp_(_n(a)), "expm1": lambda a: _n(a).expm1(), "exp2": lambda a: T.pow_(lift(2), _n(a)),
    "log": lambda a: T.log_(_n(a)), "log10": lambda a: _n(a).log10(), "log2": lambda a: _n(a).log2(),
    "log1p": lambda a: _n(a).log1p(),
    "cosh": lambda a: _n(a).cosh(), "sinh": lambda a: _n(a).sinh(), "tanh": lambda a: _n(a).tanh(),
    "arccosh": lambda a: _n(a).arccosh(), "arcsinh": lambda a: _n(a).arcsinh(), "arctanh": lambda a: _n(a).arctanh(),
    "arcsin": lambda a: T.atan2_(_n(a), T.sqrt_(1 - _n(a) * _n(a))), "arccos": lambda a: T.atan2_(T.sqrt_(1 - _n(a) * _n(a)), _n(a)),
    "arctan2": lambda a, b: T.atan2_(_n(a), _n(b)), "arctan": lambda a: T.atan2_(_n(a), T.ONE),
    "floor": lambda a: T.floor_(_n(a)), "ceil": lambda a: -T.floor_(-_n(a)),
    "rint": lambda a: T.round_(_n(a)),
    "trunc": lambda a: _trunc(_n(a)),
    "sign": lambda a: T.sign_(_n(a)), "hypot": lambda a, b: _n(a).hypot(_n(b)),
    "deg2rad": lambda a: _n(a).deg2rad(), "radians": lambda a: _n(a).deg2rad(),
    "rad2deg": lambda a: _n(a).rad2deg(), "degrees": lambda a: _n(a).rad2deg(),
    "conjugate": lambda a: a, "conj": lambda a: a,
    "copysign": lambda a, b: abs(_n(a)) * (T.ONE - 2 * (_n(b) < 0).as_R()),
    "heaviside": lambda a, h: (_n(a) > 0).as_R() + (_n(a) == 0).as_R() * _n(h),
    "signbit": lambda a: _n(a) < 0,
}


def _trunc(a):
    return a.constant() is not None and R.const(int(a.constant())) or T.ite(a >= 0, T.floor_(a), -T.floor_(-a))


def _fmod(a, b):
    return a - b * _trunc(a / b)


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    if method == "__call__":
        if name == "matmul":
            return _finish(_matmul(*inputs), out)
        if name == "divmod":
            return (UFCALL("floor_divide", inputs), UFCALL("remainder", inputs))
        f = UF.get(name)
        if f is None:
            raise Unsupported("numpy ufunc %s" % name)
        return _finish(_map(f, *inputs), out)
    if method == "reduce":
        f = UF.get(name)
        if f is None:
            raise Unsupported("numpy ufunc %s.reduce" % name)
        return _finish(_reduce(f, name, inputs[0], **kw), out)
    if method == "accumulate":
        f = UF.get(name)
        a = sarr(inputs[0])
        axis = kw.get("axis", 0)
        if len(inputs) > 1:
            axis = inputs[1]
        a = np.moveaxis(a.view(np.ndarray), axis, 0)
        res = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.shape[0]):
            acc = a[i] if acc is None else _map(f, acc, a[i])
            res[i] = acc
        return _finish(np.moveaxis(res, 0, axis).view(SArr), out)
    if method == "outer":
        a, b = sarr(inputs[0]), sarr(inputs[1])
        return _map(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at":
        a, idx, b = inputs
        idx = np.asarray(raw(idx))
        if idx.dtype == object:
            idx = idx.astype(int)
        b = np.broadcast_to(raw(sarr(b)), idx.shape)
        for i, ix in enumerate(idx.ravel()):
            a[ix] = UF[name](a[ix], b.ravel()[i])
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def UFCALL(name, inputs):
    return _map(UF[name], *inputs)


def _finish(res, out):
    if out is None:
        return res
    o = out[0] if isinstance(out, tuple) else out
    if isinstance(o, np.ndarray) and o.dtype != object:
        raise Unsupported("writing symbolic values into a float array")
    o.view(np.ndarray)[...] = res
    return o


_IDENT = {"add": T.ZERO, "multiply": T.ONE, "logical_and": T.TRUE, "logical_or": T.FALSE}


def _reduce(f, name, a, axis=0, keepdims=False, initial=None, **k):
    a = sarr(a).view(np.ndarray)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(int(x) % a.ndim for x in axes) if a.ndim else ()
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes))
    shp = [a.shape[i] for i in keep]
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    b = b.reshape(shp + [n])
    out = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        row = b[idx]
        acc = initial if initial is not None and initial is not np._NoValue else None
        for x in row:
            if isinstance(x, SB) and name == "add":
                x = x.as_R()
            acc = x if acc is None else f(acc, x)
        if acc is None:
            if name not in _IDENT:
                raise ValueError("zero-size array to reduction operation")
            acc = _IDENT[name]
        out[idx] = acc
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out[()] if out.ndim == 0 else out.view(SArr)


def _matmul(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 1:
        return _matmul(a.reshape(1, -1), b)[..., 0, :]
    if b.ndim == 1:
        return _matmul(a, b.reshape(-1, 1))[..., 0]
    x = a[..., :, :, None] * b[..., None, :, :]
    return x.sum(axis=-2)


# ------------------------------------------------------------------ array functions
def _all(a, axis=None, **k):
    return _reduce(UF["logical_and"], "logical_and", _tosb(a), axis=axis)


def _any(a, axis=None, **k):
    return _reduce(UF["logical_or"], "logical_or", _tosb(a), axis=axis)


def _tosb(a):
    return _map(T.to_SB, a)


def _clip(a, lo=None, hi=None, **k):
    r = sarr(a)
    if lo is not None:
        r = _map(lambda x, l: T.ite(lift(x) < lift(l), lift(l), lift(x)), r, lo)
    if hi is not None:
        r = _map(lambda x, h: T.ite(lift(x) > lift(h), lift(h), lift(x)), r, hi)
    return r


def _argm(a, axis=None, max=True, **k):
    a = sarr(a)
    if axis is None:
        v = list(a.ravel().view(np.ndarray))
        best = 0
        for i in range(1, len(v)):
            if (bool(lift(v[i]) > lift(v[best])) if max else bool(lift(v[i]) < lift(v[best]))):
                best = i
        return best
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(m.shape[:-1], dtype=int)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = _argm(sarr(m[idx]), None, max)
    return out


def _argsort(a, axis=-1, kind=None, **k):
    a = sarr(a)
    if axis is None:
        a = a.ravel()
    if a.ndim != 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        rows = [_argsort(r) for r in m.reshape(-1, m.shape[-1])]
        return np.moveaxis(np.array(rows, dtype=int).reshape(m.shape), -1, axis)
    v = [lift(x) for x in a.view(np.ndarray)]
    order = []
    for i in range(len(v)):  # stable insertion sort
        j = len(order)
        while j > 0 and bool(v[i] < v[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return np.array(order, dtype=int)


def _sort(a, axis=-1, **k):
    a = sarr(a)
    if axis is None:
        a = a.ravel()
    if a.ndim != 1:
        return wrap(np.take_along_axis(a.view(np.ndarray), _argsort(a, axis), axis))
    return a[_argsort(a)]


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp = [lift(v) for v in sarr(xp).ravel().view(np.ndarray)]
    fp = [lift(v) for v in sarr(fp).ravel().view(np.ndarray)]
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")
    if not xp:
        raise ValueError("array of sample points is empty")

    def one(v):
        v = lift(v)
        n = len(xp)
        if bool(v > xp[n - 1]):
            return fp[n - 1] if right is None else lift(right)
        if bool(v == xp[n - 1]):
            return fp[n - 1]
        if bool(v < xp[0]):
            return fp[0] if left is None else lift(left)
        for i in range(n - 2, -1, -1):
            if bool(v >= xp[i]):
                if bool(v == xp[i]):
                    return fp[i]
                return fp[i] + (v - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
        return fp[0]
    return _map(one, x)


def _searchsorted(a, v, side="left", sorter=None):
    a = [lift(x) for x in sarr(a).ravel().view(np.ndarray)]

    def one(q):
        k = 0
        for x in a:
            if bool(x < lift(q)) if side == "left" else bool(x <= lift(q)):
                k += 1
            else:
                break
        return k
    r = _map(one, sarr(v))
    if isinstance(r, np.ndarray):
        return np.array([int(x) for x in r.ravel().view(np.ndarray)]).reshape(r.shape)
    return int(r)


def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


def _where(c, *ab):
    if not ab:
        return np.nonzero(np.array([bool(x) for x in sarr(c).ravel().view(np.ndarray)]).reshape(np.shape(c)))
    return _map(lambda cc, a, b: T.ite(T.to_SB(cc), lift(a), lift(b)), c, *ab)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    d = T.ZERO
    for j in range(n):
        minor = np.delete(np.delete(m.view(np.ndarray), 0, 0), j, 1)
        d = d + (lift(m[0, j]) * _det(minor)) * (-1 if j % 2 else 1)
    return d


def _inv(m):
    m = sarr(m)
    if m.ndim > 2:
        out = np.empty(m.shape, dtype=object)
        for i in range(m.shape[0]):
            out[i] = _inv(m[i])
        return out.view(SArr)
    n = m.shape[0]
    if m.ndim != 2 or m.shape[1] != n:
        raise np.linalg.LinAlgError("not square")
    d = _det(m.view(np.ndarray))
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m.view(np.ndarray), j, 0), i, 1)
            out[i, j] = (_det(minor) if n > 1 else T.ONE) * (-1 if (i + j) % 2 else 1) / d
    return out.view(SArr)


def _solve(a, b):
    return _matmul(_inv(a), b)


def _norm(x, ord=None, axis=None, keepdims=False):
    x = sarr(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    if ord == 2 and axis is None and x.ndim == 2:
        raise Unsupported("matrix 2-norm")
    s = _reduce(UF["add"], "add", x * x, axis=axis, keepdims=keepdims)
    return np.sqrt(s) if isinstance(s, np.ndarray) else T.sqrt_(lift(s))


def _bincount(x, weights=None, minlength=0):
    x = [int(v) for v in np.asarray(raw(x)).ravel()]
    n = max(max(x) + 1 if x else 0, int(minlength))
    if weights is None:
        out = np.zeros(n, dtype=int)
        for v in x:
            out[v] += 1
        return out
    w = sarr(weights).ravel()
    out = [T.ZERO] * n
    for v, ww in zip(x, w):
        out[v] = out[v] + lift(ww)
    return sarr(out)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if np.ndim(raw(start)) or np.ndim(raw(stop)):
        lo, hi = sarr(start), sarr(stop)
        div = num - 1 if endpoint else num
        a = _stackers("stack")([lo + (hi - lo) * F(i, div) if i else lo + hi * 0 for i in range(num)], axis=axis)
        return (a, (hi - lo) / div) if retstep else a
    start, stop = lift(start), lift(stop)
    div = num - 1 if endpoint else num
    vals = []
    for i in range(num):
        if i == 0:
            vals.append(start)
        else:
            vals.append(start + (stop - start) * F(i, div))
    a = sarr(vals)
    if is_int_dtype(dtype):
        a = a.astype(int)
    if retstep:
        return a, (stop - start) / div
    return a


ROUND = None          # set by H.rounding: a fresh relative rounding error of the quotient np.arange counts with


def _arange(*args, dtype=None, **k):
    if all(isinstance(a, (int, np.integer)) for a in args) and not is_float_dtype(dtype):
        return np.arange(*args)
    start, step = T.ZERO, T.ONE
    if len(args) == 1:
        stop = lift(args[0])
    elif len(args) == 2:
        start, stop = lift(args[0]), lift(args[1])
    else:
        start, stop, step = (lift(a) for a in args)
    cnt = T.cancel((stop - start) / step)
    if ROUND is not None:
        cnt = cnt * (1 + ROUND())
    n = int(-T.floor_(-cnt))
    return sarr([start + step * i for i in range(max(n, 0))])


def _full(shape, v, dtype=None, **k):
    if isinstance(shape, (int, np.integer, R)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    if is_int_dtype(dtype):
        return np.full(shape, int(v))
    if is_bool_dtype(dtype):
        return np.full(shape, bool(v))
    out = np.empty(shape, dtype=object)
    vv = v if isinstance(v, (R, SB)) or v is None else (_conv(v) if not isinstance(v, np.ndarray) else v)
    if out.size:
        if isinstance(vv, np.ndarray):
            out[...] = vv
        else:
            for idx in np.ndindex(*shape):
                out[idx] = vv
    return out.view(SArr) if shape != () else out.view(SArr)


def _like(v):
    def f(a, dtype=None, order=None, subok=True, shape=None, **k):
        if shape is None:
            shape = np.shape(raw(a)) if not isinstance(a, (R, SB)) else ()
        if dtype is None and isinstance(a, np.ndarray) and a.dtype != object:
            dtype = a.dtype if a.dtype.kind in "iub" else None
        if dtype is None and isinstance(a, (int, np.integer)) and not isinstance(a, bool):
            dtype = int
        r = _full(shape, v, dtype)
        return r if np.ndim(r) else r[()]
    return f


def _full_like(a, v, dtype=None, **k):
    shape = np.shape(raw(a)) if not isinstance(a, (R, SB)) else ()
    r = _full(shape, v, dtype)
    return r if np.ndim(r) else r[()]


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if is_int_dtype(dtype):
        if has_sym(x):
            return sarr(x).astype(int)
        return np.array(x, dtype=dtype)
    if is_bool_dtype(dtype):
        if has_sym(x):
            return sarr(x).astype(bool)
        return np.array(x, dtype=dtype)
    if isinstance(x, SArr):
        r = np.ndarray.copy(x) if copy else x
    elif has_sym(x):
        r = sarr(x)
        if r is x:
            r = np.ndarray.copy(r)
    else:
        a = np.array(x)
        if a.dtype.kind == "f" or (is_float_dtype(dtype) and a.dtype.kind in "iub"):
            r = sarr(a)
        else:
            return np.array(x, dtype=dtype, ndmin=ndmin)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _isin(e, test, **k):
    tv = list(sarr(test).ravel().view(np.ndarray)) if not isinstance(test, (set,)) else list(test)

    def one(v):
        if isinstance(v, str):
            return v in tv
        return T.or_(*[lift(v) == lift(t) for t in tv]) if tv else T.FALSE
    return _map(one, e)


def _unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    a = sarr(a).ravel()
    o = _argsort(a)
    vals, idx, cnt = [], [], []
    inv = [0] * len(o)
    for i in o:
        if vals and bool(lift(a[i]) == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(lift(a[i]))
            idx.append(int(i))
            cnt.append(1)
        inv[i] = len(vals) - 1
    res = [sarr(vals)]
    if return_index:
        res.append(np.array(idx))
    if return_inverse:
        res.append(np.array(inv))
    if return_counts:
        res.append(np.array(cnt))
    return res[0] if len(res) == 1 else tuple(res)


def _einsum(spec, *ops, **k):
    k.pop("optimize", None)
    if not isinstance(spec, str):
        raise Unsupported("einsum sublist")
    spec = spec.replace(" ", "")
    ins, _, outs = spec.partition("->")
    ins = ins.split(",")
    ops = [sarr(o) for o in ops]
    if "..." in spec:
        nd = max(o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops) if "..." in i)
        L = "ABCDEFGH"[:nd]
        ins2 = []
        for i, o in zip(ins, ops):
            m = o.ndim - len(i.replace("...", ""))
            ins2.append(i.replace("...", L[nd - m:]))
        ins = ins2
        outs = outs.replace("...", L)
    if "->" not in spec:
        cnt = {}
        for i in ins:
            for c in i:
                cnt[c] = cnt.get(c, 0) + 1
        outs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einsum dims")
        for c, s in zip(i, o.shape):
            if dims.get(c, s) != s and s != 1 and dims[c] != 1:
                raise ValueError("operands could not be broadcast together")
            dims[c] = max(dims.get(c, 1), s)
    summed = [c for c in dims if c not in outs]
    out = np.empty([dims[c] for c in outs], dtype=object)
    arrs = [o.view(np.ndarray) for o in ops]
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outs, oi))
        acc = T.ZERO
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = T.ONE
            for i, o in zip(ins, arrs):
                t = t * lift(o[tuple(env[c] if o.shape[p] > 1 else 0 for p, c in enumerate(i))])
            acc = acc + t
        out[oi] = acc
    return out.view(SArr) if out.ndim else out[()]


def _cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = sarr(a), sarr(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(a.view(np.ndarray), axisa, -1)
    b = np.moveaxis(b.view(np.ndarray), axisb, -1)
    a, b = np.broadcast_arrays(a, b)
    if a.shape[-1] != 3:
        raise Unsupported("cross of 2-vectors")
    a, b = sarr(a).view(np.ndarray), sarr(b).view(np.ndarray)
    a = a.view(SArr)
    b = b.view(SArr)
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
         a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
         a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    out = np.empty(a.shape, dtype=object)
    for i in range(3):
        out[..., i] = c[i]
    return np.moveaxis(out, -1, axisc).view(SArr) if out.ndim > 1 else out.view(SArr)


def _round(a, decimals=0, out=None):
    return _map(lambda x: T.round_(lift(x), int(decimals)), a)


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    y = np.moveaxis(y.view(np.ndarray), axis, -1).view(SArr)
    if x is not None:
        x = sarr(x)
        d = x[..., 1:] - x[..., :-1]
    else:
        d = lift(dx)
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(axis=-1)


def _mean(a, axis=None, **k):
    return sarr(a).mean(axis=axis, **{x: v for x, v in k.items() if x == "keepdims"})


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    a, w = sarr(a), sarr(weights)
    if axis is not None and w.ndim != a.ndim:
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
    return (a * w).sum(axis=axis) / ((w + a * 0).sum(axis=axis))


def _allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return bool(_all(_map(lambda x, y: _isclose(x, y, rtol, atol), a, b)))


def _count_nonzero(a, axis=None, **k):
    return _reduce(UF["add"], "add", _map(lambda x: T.to_SB(x).as_R(), a), axis=axis)


def _array_equal(a, b, **k):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return bool(_all(_map(lambda x, y: lift(x) == lift(y), a, b)))


def _cum(name):
    def f(a, axis=None, dtype=None, out=None):
        a = sarr(a)
        if axis is None:
            a, axis = a.ravel(), 0
        return _finish(dispatch_ufunc(getattr(np, name), "accumulate", (a,), {"axis": axis}), out)
    return f


def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
        if keepdims is np._NoValue:
            keepdims = False
        return _finish(_reduce(UF[name], name, a, axis=axis, keepdims=keepdims, initial=initial), out)
    return f


def _diff(a, n=1, axis=-1, prepend=None, append=None):
    a = sarr(a)
    parts = []
    for p in (prepend, a, append):
        if p is None or p is np._NoValue:
            continue
        p = sarr(p)
        if p.ndim == 0:
            shp = list(a.shape)
            shp[axis] = 1
            p = _full(tuple(shp), p[()])
        parts.append(p)
    if len(parts) > 1:
        a = wrap(np.concatenate([p.view(np.ndarray) for p in parts], axis=axis))
    for _ in range(int(n)):
        m = np.moveaxis(a.view(np.ndarray), axis, 0).view(SArr)
        d = m[1:] - m[:-1]
        a = np.moveaxis(d.view(np.ndarray), 0, axis).view(SArr)
    return a


def _gradient(f, *var, axis=None, edge_order=1):
    f = sarr(f)
    if f.ndim != 1:
        raise Unsupported("nd gradient")
    n = len(f)
    h = var[0] if var else 1
    if isinstance(h, np.ndarray) and h.ndim:
        raise Unsupported("gradient coords")
    h = lift(h)
    out = [(f[1] - f[0]) / h] + [(f[i + 1] - f[i - 1]) / (2 * h) for i in range(1, n - 1)] + [(f[n - 1] - f[n - 2]) / h]
    return sarr(out)


def _meshgrid(*xi, indexing="xy", sparse=False, copy=True):
    xs = [sarr(x).ravel().view(np.ndarray) for x in xi]
    return [wrap(np.array(m)) if False else np.array(m, dtype=object).view(SArr)
            for m in np.meshgrid(*xs, indexing=indexing, sparse=sparse)]


def _nan_to_num(x, *a, **k):
    return _map(lambda v: T.ZERO if isinstance(v, float) else v, x)


def _rot(fn):
    def f(*a, **k):
        return wrap(fn(*[raw(x) for x in a], **{kk: raw(v) for kk, v in k.items()}))
    return f


def _dot(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _matmul(a, b)


def _argwhere(a):
    return np.argwhere(np.array([bool(x) for x in sarr(a).ravel().view(np.ndarray)]).reshape(np.shape(raw(a))))


def _append(arr, values, axis=None):
    a, b = sarr(arr), sarr(values)
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    return wrap(np.concatenate([a.view(np.ndarray), b.view(np.ndarray)], axis=axis))


def _stackers(name):
    fn = getattr(np, name)

    def f(arrs, *a, **k):
        k.pop("dtype", None)
        lst = [sarr(x).view(np.ndarray) for x in arrs]
        return wrap(fn(lst, *a, **k))
    return f


def _save(*a, **k):
    raise Unsupported("file output of symbolic values")


def _isclose_fn(a, b, rtol=1e-05, atol=1e-08, **k):
    return _map(lambda x, y: _isclose(x, y, rtol, atol), a, b)


def _std(a, axis=None, ddof=0, **k):
    return sarr(a).std(axis, ddof=ddof, **{x: v for x, v in k.items() if x == "keepdims"})


def _lexsort(keys, axis=-1):
    order = np.arange(len(sarr(keys[0])))
    for k in keys:
        order = order[_argsort(sarr(k)[order])]
    return order


def _select(conds, choices, default=0):
    out = default
    for c, x in reversed(list(zip(conds, choices))):
        out = _where(c, x, out)
    return out


def _piecewise(x, conds, funcs, *a, **k):
    conds = list(conds) if isinstance(conds, (list, tuple)) else [conds]
    vals = [f(x, *a, **k) if callable(f) else f for f in funcs]
    default = vals[len(conds)] if len(vals) > len(conds) else 0
    out = sarr(x) * 0 + default
    for c, v in zip(conds, vals):
        out = _where(c, v, out)
    return out


def _multi_dot(ms, **k):
    out = ms[0]
    for m in ms[1:]:
        out = _dot(out, m)
    return out


def _convolve(a, b, mode="full"):
    a, b = sarr(a), sarr(b)
    n = len(a) + len(b) - 1
    full = [sum((a[i] * b[j - i] for i in range(len(a)) if 0 <= j - i < len(b)), T.ZERO) for j in range(n)]
    if mode == "full":
        return sarr(full)
    m = max(len(a), len(b)) if mode == "same" else max(len(a), len(b)) - min(len(a), len(b)) + 1
    return sarr(full[(n - m) // 2:(n - m) // 2 + m])


def _polyval(p, x):
    out = x * 0
    for c in p:
        out = out * x + c
    return out


def _percentile(a, q, axis=None, **k):
    if axis is not None or np.ndim(raw(q)):
        raise Unsupported("percentile axis")
    s = _sort(sarr(a).ravel())
    pos = T.F(str(q)) / 100 * (len(s) - 1)
    i = int(pos)
    return s[i] if pos == i else s[i] + (s[i + 1] - s[i]) * (pos - i)


def _outer(a, b, out=None):
    return dispatch_ufunc(np.multiply, "outer", (sarr(a).ravel(), sarr(b).ravel()), {})


def _ptp(a, axis=None, **k):
    return sarr(a).max(axis=axis) - sarr(a).min(axis=axis)


def _setdiff(a, b, **k):
    a, b = sarr(a).ravel(), sarr(b).ravel()
    return sarr([x for x in _unique(a) if not any(bool(lift(x) == lift(y)) for y in b)])


FUNCS = {
    "sum": _red("add"), "prod": _red("multiply"), "product": _red("multiply"),
    "max": _red("maximum"), "min": _red("minimum"), "amax": _red("maximum"), "amin": _red("minimum"),
    "nanmax": _red("maximum"), "nanmin": _red("minimum"), "nansum": _red("add"),
    "all": _all, "any": _any, "alltrue": _all,
    "cumsum": _cum("add"), "cumprod": _cum("multiply"), "nancumsum": _cum("add"),
    "clip": _clip, "argmax": lambda a, axis=None, **k: _argm(a, axis, True),
    "argmin": lambda a, axis=None, **k: _argm(a, axis, False), "argsort": _argsort, "sort": _sort,
    "interp": _interp, "searchsorted": _searchsorted, "digitize": _digitize, "where": _where,
    "bincount": _bincount, "linspace": _linspace, "arange": _arange,
    "zeros": lambda shape, dtype=None, **k: _full(shape, T.ZERO, dtype),
    "empty": lambda shape, dtype=None, **k: _full(shape, T.ZERO, dtype),
    "ones": lambda shape, dtype=None, **k: _full(shape, T.ONE, dtype),
    "full": _full, "zeros_like": _like(T.ZERO), "ones_like": _like(T.ONE), "empty_like": _like(T.ZERO),
    "full_like": _full_like, "array": _array, "asarray": lambda x, dtype=None, **k: _array(x, dtype, copy=False),
    "asanyarray": lambda x, dtype=None, **k: _array(x, dtype, copy=False),
    "ascontiguousarray": lambda x, dtype=None, **k: _array(x, dtype, copy=False),
    "copy": lambda x, **k: _array(x), "isin": _isin, "in1d": _isin, "unique": _unique,
    "einsum": _einsum, "cross": _cross, "round": _round, "around": _round, "round_": _round,
    "trapz": _trapz, "trapezoid": _trapz, "mean": _mean, "nanmean": _mean, "average": _average,
    "allclose": _allclose, "isclose": _isclose_fn, "count_nonzero": _count_nonzero,
    "array_equal": _array_equal, "diff": _diff, "gradient": _gradient, "meshgrid": _meshgrid,
    "nan_to_num": _nan_to_num, "dot": _dot, "matmul": _matmul, "vdot": lambda a, b: _dot(sarr(a).ravel(), sarr(b).ravel()),
    "inner": lambda a, b: _matmul(a, np.swapaxes(sarr(b), -1, -2) if np.ndim(b) > 1 else b),
    "outer": _outer, "tensordot": None, "nonzero": lambda a: sarr(a).nonzero(), "argwhere": _argwhere,
    "append": _append, "vstack": _stackers("vstack"), "hstack": _stackers("hstack"), "row_stack": _stackers("vstack"),
    "stack": _stackers("stack"), "concatenate": _stackers("concatenate"), "column_stack": _stackers("column_stack"),
    "dstack": _stackers("dstack"), "std": _std, "var": lambda a, axis=None, ddof=0, **k: _std(a, axis, ddof) ** 2,
    "ptp": _ptp, "setdiff1d": _setdiff, "fix": lambda x, **k: _map(lambda v: _trunc(lift(v)), x),
    "lexsort": _lexsort, "select": _select, "piecewise": _piecewise, "convolve": _convolve, "polyval": _polyval,
    "ediff1d": lambda a, **k: _diff(sarr(a).ravel()), "flatnonzero": lambda a: sarr(a).ravel().nonzero()[0],
    "percentile": _percentile, "quantile": lambda a, q, **k: _percentile(a, q * 100, **k), "isscalar": lambda x: isinstance(x, (R, SB)) or np.isscalar(x),
    "isreal": lambda x: True, "real": lambda x: x, "imag": lambda x: x * 0, "save": _save, "savetxt": _save,
    "sinc": lambda x: T.sin_(T.PI * x) / (T.PI * x),
    "array2string": lambda a, *r, **k: repr([str(x) for x in sarr(a).ravel().view(np.ndarray)]),
    "array_str": lambda a, *r, **k: repr([str(x) for x in sarr(a).ravel().view(np.ndarray)]),
    "array_repr": lambda a, *r, **k: repr([str(x) for x in sarr(a).ravel().view(np.ndarray)]),
    "median": lambda a, **k: _median(a),
    "extract": lambda c, a: sarr(a)[_fix1(_tosb(c))],
    "cov": None, "histogram": None, "identity": lambda n, **k: _eye(n), "eye": lambda n, *a, **k: _eye(n),
    "iscomplexobj": lambda x: False,
}
LINALG = {"inv": _inv, "det": lambda m: _det(sarr(m).view(np.ndarray)), "norm": _norm, "solve": _solve, "pinv": _inv, "multi_dot": _multi_dot}


def _eye(n):
    n = int(n)
    return sarr([[T.ONE if i == j else T.ZERO for j in range(n)] for i in range(n)])


def _median(a):
    s = _sort(sarr(a).ravel())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


# safe structural numpy functions: operate on object arrays directly
STRUCTURAL = {"reshape", "transpose", "ravel", "moveaxis", "swapaxes", "rollaxis", "roll", "flip", "fliplr", "flipud",
              "rot90", "squeeze", "expand_dims", "broadcast_to", "broadcast_arrays", "repeat", "tile", "split",
              "array_split", "hsplit", "vsplit", "delete", "insert", "take", "take_along_axis", "atleast_1d",
              "atleast_2d", "atleast_3d", "shape", "ndim", "size", "diag", "diagonal", "trace", "tril", "triu",
              "resize", "pad", "block", "choose", "compress", "put", "copyto", "may_share_memory", "shares_memory",
              "result_type", "can_cast", "kron", "tensordot", "ndenumerate", "ndindex", "ix_", "r_", "c_",
              "put_along_axis", "fill_diagonal", "triu_indices", "tril_indices", "indices", "s_", "newaxis"}


def dispatch_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    table = LINALG if "linalg" in mod and name in LINALG else FUNCS
    f = table.get(name)
    kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
    if f is not None:
        return f(*args, **kwargs)
    if name in STRUCTURAL:
        if "like" in kwargs:
            kwargs.pop("like")
        r = func(*[raw(a) for a in args], **{k: raw(v) for k, v in kwargs.items()})
        return wrap(r)
    raise Unsupported("numpy function %s" % name)


# functions the shim must always intercept (they create float arrays)
ALWAYS = {"linspace", "arange", "zeros", "empty", "ones", "full", "zeros_like", "ones_like", "empty_like", "full_like",
          "array", "asarray", "asanyarray", "ascontiguousarray", "identity", "eye"}


class _Linalg:
    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        if n in LINALG:
            def f(*a, **k):
                if any(has_sym(x) for x in a):
                    return LINALG[n](*a, **k)
                return real(*a, **k)
            return f
        if callable(real) and not isinstance(real, type):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    raise Unsupported("numpy.linalg." + n)
                return real(*a, **k)
            return g
        return real


class _RStack:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        parts = []
        for x in k:
            if isinstance(x, slice):
                if isinstance(x.step, complex):
                    parts.append(_linspace(x.start, x.stop, int(abs(x.step))))
                else:
                    parts.append(sarr(_arange(x.start or 0, x.stop, x.step or 1)))
            else:
                a = sarr(x)
                parts.append(a if a.ndim else a.reshape(1))
        if self.name == "c_":
            return FUNCS["column_stack"](parts)
        return FUNCS["concatenate"](parts)


class NPShim:
    """stands in for the numpy module inside the code under analysis"""

    def __init__(self, overrides=None):
        self._over = dict(overrides or {})
        self.linalg = _Linalg()
        self.pi = T.PI
        self.e = T.exp_(T.ONE)
        self.inf = math.inf
        self.Inf = math.inf
        self.nan = math.nan
        self.NaN = math.nan
        self.newaxis = None
        self.r_ = _RStack("r_")
        self.c_ = _RStack("c_")
        self._cache = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            return getattr(np, name)
        if name in self._over:
            return self._over[name]
        c = self._cache
        if name in c:
            return c[name]
        real = getattr(np, name)
        if isinstance(real, type) or not callable(real):
            c[name] = real
            return real
        if isinstance(real, np.ufunc):
            v = _UfuncShim(real)
        else:
            v = _fshim(name, real)
        c[name] = v
        return v


class _UfuncShim:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if self.u.__name__ in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal") and not any(has_sym(x) for x in a):
            return self.u(*a, **k)
        if any(has_sym(x) for x in a) or (k.get("out") is not None and has_sym(k["out"])):
            return dispatch_ufunc(self.u, "__call__", a, k)
        # concrete python/numpy numbers: stay exact where a float would be produced
        arrs = [x for x in a if isinstance(x, (np.ndarray, list, tuple))]
        if all(isinstance(x, (int, np.integer, np.ndarray, list, tuple)) and np.asarray(x).dtype.kind in "iub" for x in a) \
                and self.u.__name__ in ("add", "subtract", "multiply", "maximum", "minimum", "remainder", "floor_divide",
                                        "absolute", "negative", "mod", "logical_and", "logical_or", "logical_not",
                                        "bitwise_and", "bitwise_or", "invert", "sign", "isnan", "isfinite"):
            return self.u(*a, **k)
        if any(isinstance(x, np.ndarray) and x.dtype.kind not in "iubf" for x in a):
            return self.u(*a, **k)
        return dispatch_ufunc(self.u, "__call__", a, k)

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ("reduce", "accumulate", "outer", "at"):
            def f(*a, **k):
                if any(has_sym(x) for x in a):
                    return dispatch_ufunc(self.u, n, a, k)
                return m(*a, **k)
            return f
        return m


def _fshim(name, real):
    def f(*a, **k):
        if name in ALWAYS:
            return FUNCS[name](*a, **k)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return dispatch_function(real, a, k)
        r = real(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            return sarr(r)
        if isinstance(r, (float, np.floating)) and not (math.isinf(r) or math.isnan(r)):
            return lift(r)
        return r
    f.__name__ = name
    return f
