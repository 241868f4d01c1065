"""A stand-in for matplotlib that records what is drawn (dual mode), and readers for it."""
import re
import numpy as np
from symx import terms as T


def snap(x):
    """a copy of what was handed over, so that later changes in place do not show"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [snap(i) for i in x]
    if isinstance(x, tuple):
        return tuple(snap(i) for i in x)
    return x


class Rec:
    def __init__(self, canvas, name, parent=None):
        d = self.__dict__
        d["_c"], d["_n"], d["_p"], d["_kids"], d["_calls"] = canvas, name, parent, {}, []

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if n not in self._kids:
            self._kids[n] = Rec(self._c, n, self)
        return self._kids[n]

    def __setattr__(self, n, v):
        self._kids[n] = v

    def __call__(self, *a, **k):
        return self._c.call(self._p, self._n, a, k, self)

    def __getitem__(self, k):
        if isinstance(k, int) and k > 8:
            raise IndexError(k)
        return self.__getattr__("item_%s" % (k,))

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter([self.__getattr__("item_0")])

    def __len__(self):
        return 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __mro_entries__(self, bases):
        return (object,)

    def __repr__(self):
        return "<%s>" % self._n


class Draw:
    def __init__(self, on, name, a, k, out):
        self.on, self.name, self.a, self.k, self.out = on, name, a, k, out


class Canvas:
    """limits: what the axes answer for their limits (xmin, xmax, ymin, ymax)"""

    def __init__(self, limits=(0.0, 1.0, 0.0, 1.0)):
        self.log = []
        self.limits = limits
        self.root = Rec(self, "matplotlib")
        self.count = 0
        self.cur_axes = self.cur_fig = None

    def stubs(self):
        return {"matplotlib": {"root": self.root}}

    def new(self, name):
        self.count += 1
        return Rec(self, "%s%d" % (name, self.count))

    def call(self, on, name, a, k, me):
        out = self.answer(on, name, a, k, me)
        self.log.append(Draw(on, name, snap(a), {x: snap(v) for x, v in k.items()}, out))
        return out

    def axes(self, fig=None):
        self.cur_axes = self.new("axes")
        self.cur_axes.__dict__["_fig"] = fig or self.cur_fig
        self.cur_axes.__dict__["_kids"]["collections"] = []
        return self.cur_axes

    def answer(self, on, name, a, k, me):
        if name == "subplots":
            self.cur_fig = fig = self.new("fig")
            r = a[0] if a else k.get("nrows", 1)
            c = a[1] if len(a) > 1 else k.get("ncols", 1)
            if r * c == 1:
                return fig, self.axes(fig)
            out = np.empty((r, c), dtype=object)
            for i in np.ndindex(r, c):
                out[i] = self.axes(fig)
            return fig, out if min(r, c) > 1 else out.reshape(-1)
        if name in ("figure", "gcf"):
            if name == "figure" or self.cur_fig is None:
                self.cur_fig = self.new("fig")
            return self.cur_fig
        if name == "gca":
            return self.cur_axes or self.axes()
        if name in ("add_subplot", "add_axes", "axes", "inset_axes", "twinx", "twiny"):
            return self.axes(on if on is not None and on._n.startswith("fig") else None)
        if name in ("plot", "semilogx", "semilogy", "step", "errorbar"):
            return [self.new("line")]
        if name == "axis":
            return tuple(self.limits)
        if name == "get_ylim":
            return tuple(self.limits[2:])
        if name == "get_xlim":
            return tuple(self.limits[:2])
        if name == "get_celld":
            return {(0, 0): self.new("cell")}
        if name in ("scatter", "contour", "quiver", "colorbar", "table", "LineCollection", "PdfPages"):
            return self.new(name)
        if name == "add_collection":
            if on is not None and "collections" in on._kids:
                on._kids["collections"].append(a[0])
            return a[0]
        return self.new(name)

    # ------------------------------------------------------------ reading
    def get(self, *names, on=None):
        return [d for d in self.log if d.name in names and (on is None or d.on is on)]

    def clear(self):
        self.log = []

    def curves(self, n=None, on=None):
        """(x, y, draw) of everything drawn as a line or as points"""
        out = []
        for d in self.get("plot", "semilogx", "semilogy", "step", "scatter", "errorbar", on=on):
            if len(d.a) >= 2 and not isinstance(d.a[1], str):
                out.append((d.a[0], d.a[1], d))
        return out

    def texts(self):
        out = []
        for d in self.log:
            for x in list(d.a) + list(d.k.values()):
                if isinstance(x, str):
                    out.append(x)
        return out


def numbers(h, text):
    """values written in a text"""
    out = []
    if h.sym:
        for tok in re.findall(r"<#(\d+)[^<>]*>", text):
            out.append(T.TOKENS[int(tok)])
        text = re.sub(r"<#\d+[^<>]*>", " ", text)
    return out + [h.num(x) for x in re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", text)]


def near(h, x, y, tol):
    d = x - y
    t = h.num(repr(tol) if isinstance(tol, float) else str(tol))
    if h.sym:
        return T.and_(T.to_SB(T.lift(d) <= t), T.to_SB(-T.lift(d) <= t))
    return abs(d) <= t * (1 + 1e-9) + 1e-12


def any_of(h, conds):
    conds = list(conds)
    if h.sym:
        return T.or_(*[T.to_SB(c) if not isinstance(c, (bool, np.bool_)) else T.SB_const(bool(c)) for c in conds])
    return any(conds)


def written(h, label, texts, value, tol, about=""):
    """some text that mentions `about` holds `value` up to rounding"""
    vals = [v for t in texts if about in t for v in numbers(h, t)]
    h.true(label, any_of(h, [near(h, v, value, tol) for v in vals]))
