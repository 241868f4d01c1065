"""C33 a band recomputed after changes of its settings equals a new band with those settings."""
import numpy as np
from .C01 import Q1D

BOUNDS = ("every single change (and the pairs listed; all ordered pairs thorough) of cell, momentum window, resolution, number of zones, "
          "discretisation route, rough mesh, one parameter, whole set, energy scale and chemical potential, with the surface computed before, "
          "between and after, at the Fermi level and at other energies; arbitrary (uninterpreted) dispersion and velocity of momentum, cell and parameters, grids of 3x3x3 to 5x9x5")
OUTSIDE = "writing into private attributes; changes of the dispersion itself"
ASSUMPTIONS = ["contour and mesh finders return a fixed mesh for any input; their inputs are compared as well", "the doping grid is 2x2x2",
               "the in-plane window is one zone and b is a or 3/2 a, so that the number of points of a contour is decided"]
NAMES = ["t", "Tb", "z1", "A2", "mu"]
READ = ["kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p", "number_of_points_per_kz_list"]


class Mesh:
    """stand-in for the mesh finders, recording what they are asked"""

    def __init__(self, h):
        self.h, self.log = h, []

    def find_contours(self, img, level=None, **k):
        self.log.append(("contour", img, level))
        n = img.shape[0]
        if n in (3, 5):      # one quadrant
            return [np.array([[0.0, 1.0], [0.6, 0.2]]), np.array([[1.0, 1.0], [0.4, 0.2]])]
        return [np.array([[0.5, 1.0], [1.1, 2.2]])]

    def marching_cubes(self, img, level=None, *a, spacing=None, **k):
        self.log.append(("cubes", img, level, list(spacing)))
        v = np.array([[1.5, 0.25, 0], [0, 1.0, 0.5], [0.25, 0, 1.0], [1.0, 1.0, 1.25]])
        return self.h.arr(v) * self.h.arr(list(spacing)), np.array([[0, 1, 2], [1, 2, 3]]), None, None

    def brentq(self, f, lo, hi, args=(), xtol=None, **k):
        f(self.h.real("visit"), *args)
        return self.h.real("root")

    def stubs(self):
        return {"skimage.measure": {"find_contours": self.find_contours, "marching_cubes": self.marching_cubes},
                "scipy.optimize": {"brentq": self.brentq}}


class State:
    """the settings a band should have now"""

    def __init__(self, h, square, rect):
        self.h = h
        self.a, self.c, self.E = h.pos("a"), h.pos("c"), h.pos("E")
        self.rect = rect
        self.p = {k: h.real("p_" + k) for k in NAMES}
        self.K2, self.res, self.Z, self.square, self.rough = h.pos("K2"), [3, 3, 3], h.pos("Z"), square, 3
        self.k01 = (h.pi, h.pi)

    @property
    def b(self):
        return self.a * self.h.q(3, 2) if self.rect else self.a

    def build(self, bs):
        b = bs.BandStructure(self.a, self.b, self.c, self.E, band_params=dict(self.p), band_model=Q1D, parallel=False,
                             resolution=list(self.res), k_max=[self.k01[0], self.k01[1], self.K2], number_of_bz=self.Z,
                             march_square=self.square)
        b.res_xy_rough = self.rough
        E, V = self.h.uf("eps"), [self.h.uf("v" + x) for x in "xyz"]
        b.epsilon_func = lambda *q: E(*q)
        b.v_func = lambda *q: tuple(f(*q) for f in V)
        return small(b)


def small(band):
    real = band.dispersion_grid
    band.dispersion_grid = lambda resolution: real([2, 2, 2] if resolution[0] >= 30 else resolution)
    return band


def change(h, S, b, kind, i):
    if kind == "cell":
        S.a, S.c = h.pos("a%d" % i), h.pos("c%d" % i)
        b.a, b.b, b.c = S.a, S.b, S.c
    elif kind == "shape":        # square <-> rectangular
        S.rect = not S.rect
        b.b = S.b
    elif kind == "height":
        S.c = b.c = h.pos("c%d" % i)
    elif kind == "stretch":      # another cell, the same window in momentum: the surface points may stay where they are
        c = h.pos("c%d" % i)
        S.K2 = S.K2 * c / S.c
        S.c = b.c = c
        b.k_max = [S.k01[0], S.k01[1], S.K2]
    elif kind == "window":
        S.K2 = h.pos("K2_%d" % i)
        b.k_max = [S.k01[0], S.k01[1], S.K2]
    elif kind == "window_item":
        S.K2 = h.pos("K2_%d" % i)
        b.k_max[2] = S.K2
    elif kind == "resolution":
        S.res = [5, 9, 5] if S.res[0] == 3 else [9, 3, 3]
        b.resolution = list(S.res)
    elif kind == "resolution_item":
        S.res = [11, S.res[1], S.res[2]]
        b.resolution[0] = 11
    elif kind == "zones":
        S.Z = b.number_of_bz = h.pos("Z%d" % i)
    elif kind == "route":
        S.square = b.march_square = not S.square
    elif kind == "rough":
        S.rough = b.res_xy_rough = 5
    elif kind == "item":
        S.p["Tb"] = h.real("item%d" % i)
        b["Tb"] = S.p["Tb"]
    elif kind == "dict":
        S.p = {k: h.real("d%d_%s" % (i, k)) for k in NAMES[::-1]}
        b.band_params = dict(S.p)
    elif kind == "scale":
        S.E = b.energy_scale = h.pos("E%d" % i)
    elif kind == "mu":
        S.p["mu"] = h.real("root")
        b.set_mu_to_doping(h.real("target"))
    elif kind == "level":
        run(b, h.real("level%d" % i), b.march_square)
    elif kind == "energy":      # looked at elsewhere in between
        b.energy_func(h.real("qx"), h.real("qy"), h.real("qz"))
        b.doping_per_kz(2, 2, 2)
    elif kind == "erase":
        b.erase_Fermi_surface()


def run(b, eps, square):
    b.runBandStructure(epsilon=eps)
    b.dos_epsilon_func()
    if square:
        b.mass_func()


def compare(h, tag, x, y):
    def leaf(a):
        return a is None or isinstance(a, (bool, str)) or (isinstance(a, (list, tuple)) and not len(a))
    if leaf(x) or leaf(y):
        h.true(tag, x is y or bool(x == y))
    elif isinstance(y, (list, tuple)):
        h.same(tag + " count", len(x), len(y))
        h.eq(tag, h.arr(list(x)), h.arr(list(y)), scale=1e-9)
    else:
        h.eq(tag, x, y)


def make(seq, square, rect=False, runs=True):
    def f(h):
        M = Mesh(h)
        bs = h.load("bandstructure", M.stubs())
        S = State(h, square, rect)
        b = S.build(bs)
        if runs:
            run(b, 0, S.square)
        for i, kind in enumerate(seq):
            change(h, S, b, kind, i)
            if i + 1 < len(seq) and not runs:
                continue
            eps = h.real("eps") if kind in ("zones", "height") else 0
            M.log = []
            run(b, eps, S.square)
            got, M.log = M.log, []
            f = S.build(bs)
            run(f, eps, S.square)
            tag = "after " + "+".join(seq[:i + 1]) + ": "
            h.same(tag + "finder calls", len(got), len(M.log))
            for g, w in zip(got, M.log):
                h.same(tag + "finder", g[0], w[0])
                for x, y in zip(g[1:], w[1:]):
                    compare(h, tag + "finder input", x, y)
            for n in READ:
                if n in ("dks", "dkz", "mass", "number_of_points_per_kz_list") and not S.square:
                    continue    # not produced by this route
                x, y = getattr(b, n), getattr(f, n)
                if y is not None and not isinstance(y, list):
                    h.same(tag + n + " shape", np.shape(x), np.shape(y))
                compare(h, tag + n, x, y)
            q = [h.arr([h.real("q%s%d" % (d, j)) for j in range(2)]) for d in "xyz"]
            h.eq(tag + "energy", b.energy_func(*q), f.energy_func(*q), scale=1.0)
            for v, w in zip(b.velocity_func(*q), f.velocity_func(*q)):
                h.eq(tag + "velocity", v, w, scale=100.0)
    return f


KINDS = ["cell", "stretch", "shape", "height", "window", "window_item", "resolution", "resolution_item", "zones", "route", "rough", "item", "dict",
         "scale", "mu", "level", "energy", "erase"]


def cases(tier):
    out = [(k, make([k], True)) for k in KINDS]
    out += [(k + "_cube", make([k], False)) for k in ("cell", "stretch", "window", "resolution", "zones", "item", "scale", "level", "route")]
    out += [(k + "_rect", make([k], True, True)) for k in ("cell", "shape", "resolution", "window")]
    pairs = [("route", "route"), ("item", "level"), ("route", "cell"), ("resolution", "scale"), ("zones", "dict"), ("mu", "height"),
             ("rough", "window"), ("shape", "shape"), ("erase", "item"), ("level", "zones")]
    out += [("_".join(p), make(list(p), i % 2 == 0)) for i, p in enumerate(pairs)]
    out += [("late_" + "_".join(p), make(list(p), True, runs=False)) for p in (("cell", "window"), ("resolution", "item"), ("level", "mu"))]
    if tier == "thorough":
        out += [("t_%s_%s_%d" % (p, q, sq), make([p, q], bool(sq))) for p in KINDS for q in KINDS for sq in (0, 1)]
    return out
