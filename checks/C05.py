"""C05 chemical-potential search."""
from .C01 import Q1D, spec
from .C04 import axis

BOUNDS = ("1-3 bands with different parameters, scales and zone counts on 2x1x2 doping grids; the root finder is a stub that "
          "evaluates the objective at 2 arbitrary points (3 thorough) in any order and returns an arbitrary root")
OUTSIDE = "the root finder's own convergence (SciPy)"
ASSUMPTIONS = ["scipy.optimize.brentq and root_scalar are arbitrary-result stubs", "doping grid reduced to 2x1x2"]
NAMES = ["t", "Tb", "z1", "A2", "mu"]
RES = [2, 1, 2]


class Finder:
    def __init__(self, h, visits):
        self.h = h
        self.visits = visits
        self.calls = []

    def brentq(self, f, a, b, args=(), xtol=None, rtol=None, maxiter=None, full_output=False, disp=True):
        h = self.h
        i = len(self.calls)
        vals = []
        for v in range(self.visits):
            mu = h.real("visit%d_%d" % (i, v))
            vals.append((mu, f(mu, *(args if isinstance(args, tuple) else (args,)))))
        root = h.real("root%d" % i)
        self.calls.append((a, b, xtol, vals, root))
        return root

    def root_scalar(self, f, args=(), method=None, bracket=None, xtol=None, **k):
        r = self.brentq(f, bracket[0], bracket[1], args, xtol)

        class Res:
            root = r
            converged = True
        return Res

    def stubs(self):
        return {"scipy.optimize": {"brentq": self.brentq, "root_scalar": self.root_scalar, "brenth": self.brentq}}


def mk(h, bs, i):
    s = str(i)
    a, b, c, E = h.pos("a" + s), h.pos("b" + s), h.pos("c" + s), h.pos("E" + s)
    K = [h.pos("K%s%d" % (s, j)) for j in range(3)]
    Z = h.pos("nbz" + s)
    p = {k: h.real("p%s_%s" % (s, k)) for k in NAMES}
    band = bs.BandStructure(a, b, c, E, band_params=dict(p), band_model=Q1D, parallel=False, k_max=K, number_of_bz=Z)
    real = band.dispersion_grid
    band.dispersion_grid = lambda resolution, r=real: r(RES)

    def filling(mu):
        P = dict(p, mu=mu)
        tot = 0
        for x in axis(h, K[0] / a, RES[0]):
            for y in axis(h, K[1] / b, RES[1]):
                for z in axis(h, K[2] / c, RES[2]):
                    tot = tot + h.ind(spec(h, Q1D, P, E, a, b, c, x, y, z) <= 0)
        return 2 * tot * h.q(1, RES[0] * RES[1] * RES[2]) / Z
    return band, p, filling


def check_call(h, fd, target, tol, fillings, n=0):
    h.same("searches", len(fd.calls) > n, True)
    lo, hi, xtol, vals, root = fd.calls[n]
    h.eq("lower", lo, -10)
    h.eq("upper", hi, 10)
    h.eq("tolerance", xtol, tol)
    for mu, r in vals:
        tot = 0
        for f in fillings:
            tot = tot + f(mu)
        h.eq("objective", r, 1 - tot - target, scale=1.0)
    return root


def check_bands(h, bands, ps, root):
    for band, p in zip(bands, ps):
        h.same("names", sorted(band.band_params), sorted(NAMES))
        for k in NAMES:
            h.eq("mu" if k == "mu" else "other", band.band_params[k], root if k == "mu" else p[k])


def single(visits, default_tol=False):
    def f(h):
        fd = Finder(h, visits)
        bs = h.load("bandstructure", fd.stubs())
        band, p, fill = mk(h, bs, 0)
        t, tol = h.real("target"), h.pos("tol")
        if default_tol:
            band.set_mu_to_doping(t)
            tol = h.num("0.001")
        else:
            band.set_mu_to_doping(t, tol)
        root = check_call(h, fd, t, tol, [fill])
        check_bands(h, [band], [p], root)
        h.eq("energy_at_root", band.energy_func(h.real("x"), h.real("y"), h.real("z")),
             0 + _e(h, p, root), scale=1.0)
    return f


def _e(h, p, root):
    return spec(h, Q1D, dict(p, mu=root), h.pos("E0"), h.pos("a0"), h.pos("b0"), h.pos("c0"), h.real("x"), h.real("y"), h.real("z"))


def multi(nb, visits, default_tol=False):
    def f(h):
        fd = Finder(h, visits)
        bs = h.load("bandstructure", fd.stubs())
        B = [mk(h, bs, i) for i in range(nb)]
        t, tol = h.real("target"), h.pos("tol")
        bands = [b[0] for b in B]
        if default_tol:
            bs.set_mu_to_doping(bands, t)
            tol = h.num("0.001")
        else:
            bs.set_mu_to_doping(bands, t, ptol=tol)
        root = check_call(h, fd, t, tol, [b[2] for b in B])
        check_bands(h, bands, [b[1] for b in B], root)
    return f


def twice(h):
    """a second search is independent of the first"""
    fd = Finder(h, 1)
    bs = h.load("bandstructure", fd.stubs())
    band, p, fill = mk(h, bs, 0)
    t, t2, tol = h.real("target"), h.real("target2"), h.pos("tol")
    band.set_mu_to_doping(t, tol)
    band.set_mu_to_doping(t2, tol)
    root = check_call(h, fd, t2, tol, [fill], 1)
    check_bands(h, [band], [p], root)
    bs.set_mu_to_doping([band], t, tol)
    root = check_call(h, fd, t, tol, [fill], 2)
    check_bands(h, [band], [p], root)


def close(how):
    """the doping is already within the tolerance of the target: the search is made all the same"""
    def f(h):
        fd = Finder(h, 1)
        bs = h.load("bandstructure", fd.stubs())
        band, p, fill = mk(h, bs, 0)
        h.eq("before", band.doping(*RES), 1 - fill(p["mu"]), scale=1.0)
        tol, d = h.pos("tol"), h.real("d")
        h.assume(d < tol)
        h.assume(d > -tol)
        t = 1 - fill(p["mu"]) + d
        if how == "multi":
            bs.set_mu_to_doping([band], t, tol)
        else:
            band.set_mu_to_doping(t, tol)
        root = check_call(h, fd, t, tol, [fill])
        check_bands(h, [band], [p], root)
    return f


def cases(tier):
    n = 3 if tier == "thorough" else 2
    return [("single", single(n)), ("single_default_tol", single(1, True)), ("multi_1", multi(1, n)), ("multi_2", multi(2, n)),
            ("multi_3", multi(3, 1)), ("multi_default_tol", multi(2, 1, True)), ("twice", twice),
            ("close", close("single")), ("close_multi", close("multi"))]
