"""C03 edits invalidate derived data and read back exactly."""
import itertools
import numpy as np
from .C01 import Q1D, spec
from .C02 import grad

BOUNDS = ("all edit histories of length 1 and 2 (length 3 thorough) over: item assignment, set_band_param, whole set, energy "
          "scale, one step of the doping objective, the single-band and multi-band doping searches; all real values including "
          "zero; surfaces of 4-12 points from either discretisation")
OUTSIDE = "edits of lattice constants, resolution and the private attributes; longer histories"
ASSUMPTIONS = ["contour/mesh finders return a fixed small mesh", "the doping grid is 2x2x2", "the root finder visits two "
               "arbitrary points and returns an arbitrary root"]

NAMES = ["t", "Tb", "z1", "A2", "mu"]
ATTRS = ["kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p"]


def stubs(h):
    def find_contours(img, level=None, **k):
        return [np.array([[0.0, 1.0], [1.0, 0.5], [1.5, 0.0]])]

    def marching_cubes(img, level=None, spacing=None, **k):
        v = np.array([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
        return (h.arr(v) * h.arr(list(spacing)), np.array([[0, 1, 2]]), None, None)
    n = [0]

    def brentq(f, lo, hi, args=(), xtol=None, **k):
        i = n[0]
        n[0] += 1
        f(h.real("visit%d_0" % i), *args)
        f(h.real("visit%d_1" % i), *args)
        return h.real("root%d" % i)
    return {"skimage.measure": {"find_contours": find_contours, "marching_cubes": marching_cubes},
            "scipy.optimize": {"brentq": brentq}}


class Ctx:
    pass


def setup(h, square, n=0):
    C = Ctx()
    C.bs = h.load("bandstructure", stubs(h))
    C.a, C.c = h.pos("a"), h.pos("c")
    C.E = h.pos("E")
    C.p = {k: h.real("p_" + k) for k in NAMES}
    C.band = C.bs.BandStructure(C.a, C.a, C.c, C.E, band_params=dict(C.p), band_model=Q1D, parallel=False,
                                resolution=[3, 3, 3], march_square=square)
    C.band.res_xy_rough = 3
    small(h, C.band)
    C.nroot = 0
    C.edits = 0
    return C


def small(h, band):
    real = band.dispersion_grid
    band.dispersion_grid = lambda resolution: real([2, 2, 3] if len(resolution) and resolution[0] == 3 else [2, 2, 2])


def fill(h, C):
    b = C.band
    b.discretize_fermi_surface()
    b.doping(2, 2, 2)
    if C.square:
        b.dos_epsilon_func()
        b.mass_func()


def edit(h, C, kind):
    i = C.edits
    C.edits += 1
    b = C.band
    if kind == "item":
        v = h.real("item%d" % i)
        C.p["Tb"] = v
        b["Tb"] = v
    elif kind == "zero":
        C.p["A2"] = 0
        b["A2"] = 0
    elif kind == "setter":
        v = h.real("set%d" % i)
        C.p["z1"] = v
        b.set_band_param("z1", v)
    elif kind == "dict":
        C.p = {k: h.real("d%d_%s" % (i, k)) for k in NAMES[::-1]}
        b.band_params = dict(C.p)
    elif kind == "scale":
        C.E = h.pos("scale%d" % i)
        b.energy_scale = C.E
    elif kind == "objective":
        v = h.real("mu%d" % i)
        C.p["mu"] = v
        b.diff_doping(v, h.real("target%d" % i))
    elif kind == "search":
        C.p["mu"] = h.real("root%d" % C.nroot)
        b.set_mu_to_doping(h.real("target%d" % i))
        C.nroot += 1
    elif kind == "multi":
        C.p["mu"] = h.real("root%d" % C.nroot)
        C.bs.set_mu_to_doping([b], h.real("target%d" % i))
        C.nroot += 1


def check(h, C, tag):
    b = C.band
    for k in NAMES:
        for nm, v in (("read", b[k]), ("get", b.get_band_param(k)), ("dict", b.band_params[k])):
            h.eq("%s:%s" % (tag, nm), v, C.p[k])
    h.eq(tag + ":scale", b.energy_scale, C.E)
    kx = [h.real("qx"), h.real("qy"), h.real("qz")]
    h.eq(tag + ":energy", b.energy_func(*kx), spec(h, Q1D, C.p, C.E, C.a, C.a, C.c, *kx), scale=1.0)
    q = [h.arr([x]) for x in kx]
    conv = h.const("q_e") * h.num("1e-3") * h.num("1e-10") / h.const("hbar")
    g = grad(h, Q1D, {k: x * C.E for k, x in C.p.items()}, C.a, C.a, C.c, *q)
    for i, v in enumerate(b.velocity_func(*q)):
        h.eq(tag + ":velocity", v, g[i] * conv, scale=100.0)
    h.true(tag + ":points_per_kz erased", not getattr(b, "number_of_points_per_kz_list", None))
    fresh = None
    for at in ATTRS:
        v = getattr(b, at)
        if v is None:
            h.true(tag + ":erased", True)
            continue
        if at in ("n", "p"):
            # recomputed with the current parameters is as good as erased
            if fresh is None:
                fresh = C.bs.BandStructure(C.a, C.a, C.c, C.E, band_params=dict(C.p), band_model=Q1D, parallel=False)
                fresh.doping(2, 2, 2)
            h.eq("%s:%s" % (tag, at), v, getattr(fresh, at), scale=1.0)
        else:
            h.fail(tag + ":stale", "%s still holds data of the previous parameters" % at)


def make(seq, square):
    def f(h):
        C = setup(h, square)
        C.square = square
        for n, kind in enumerate(seq):
            if n < 2:
                fill(h, C)
            edit(h, C, kind)
            check(h, C, "after_" + kind)
    return f


def unknown(h):
    """unknown names change nothing"""
    C = setup(h, True)
    C.square = True
    C.band["nosuch"] = h.real("u")
    C.band.set_band_param("nosuch2", h.real("u"))
    h.same("names", sorted(C.band.band_params), sorted(NAMES))
    for k in NAMES:
        h.eq("unchanged", C.band.band_params[k], C.p[k])
    h.same("unknown_read", C.band["nosuch"], None)


def zeros(h):
    """zero values read back"""
    bs = h.load("bandstructure")
    band = bs.BandStructure(h.pos("a"), h.pos("b"), h.pos("c"), h.pos("E"), band_params={k: 0 for k in NAMES},
                            band_model=Q1D, parallel=False)
    for k in NAMES:
        h.eq("zero", band[k], 0)
        h.eq("zero_get", band.get_band_param(k), 0)
    band["t"] = h.real("t")
    band["t"] = 0
    h.eq("zero_again", band["t"], 0)
    h.eq("zero_energy", band.energy_func(h.real("x"), h.real("y"), h.real("z")), 0, scale=1.0)


KINDS = ["item", "zero", "setter", "dict", "scale", "objective", "search", "multi"]


def cases(tier):
    out = [("unknown_name", unknown), ("zeros", zeros)]
    for k in KINDS:
        out.append((k, make([k], True)))
    for k in ("item", "dict", "scale", "search"):
        out.append((k + "_cube", make([k], False)))
    pairs = [("item", "search"), ("search", "scale"), ("dict", "objective"), ("objective", "item"), ("multi", "dict"),
             ("scale", "setter"), ("search", "multi"), ("zero", "item")]
    if tier == "thorough":
        pairs = list(itertools.permutations(KINDS, 2))
    for p in pairs:
        out.append(("_".join(p), make(list(p), True)))
    if tier == "thorough":
        for t in (("item", "search", "scale"), ("dict", "multi", "zero"), ("objective", "scale", "search"), ("search", "search", "dict")):
            out.append(("_".join(t), make(list(t), False)))
    return out
