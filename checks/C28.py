"""C28 objective of the multi-temperature fit."""
from .C27 import Fit

BOUNDS = ("1-3 and 5 temperatures with different grids and references, 1-3 azimuths, 2-4 polar angles, 1-2 bands, both modes; up to 4 "
          "evaluations with equal and different candidates in any order, with and without a vector; shared parameters only")
OUTSIDE = "larger grids; the optimiser itself"
ASSUMPTIONS = ["that the objective is zero exactly when every point agrees follows from the equality proved here: it is a sum of squares",
               "surface and transport are arbitrary functions of the parameters the objects hold when they are computed"]


def value(Ts, bands, free, norm, phis=(0,), ngrid=2, more=False):
    def f(h):
        F = Fit(h, Ts, bands, free, normalized=norm, phis=phis, ngrid=ngrid)
        if F.order() is None:
            return h.fail("bounds", "the bounds %s are not those declared" % (F.obj.bounds,))
        h.eq("objective of the initial parameters", F.obj.compute_fitness(), F.objective())
        x, vals = F.candidate("0")
        F.apply(vals)
        want = F.objective()
        h.eq("objective", F.obj.compute_fitness(x), want)
        if more:
            h.eq("objective, same candidate again", F.obj.compute_fitness(x), want)
            h.eq("objective without a vector", F.obj.compute_fitness(), want)
            y, vy = F.candidate("1")
            F.obj.compute_fitness(y)
            h.eq("objective of a candidate seen before", F.obj.compute_fitness(x), want)
        F.untouched()
    return f


def stored(norm):
    """the curves kept for the figures are those of the last evaluation"""
    def f(h):
        F = Fit(h, [10, 25], ["A"], [(10, "A", "mu"), ("all", "A", "gamma_0")], normalized=norm, phis=(0, 45))
        x, vals = F.candidate("0")
        F.obj.compute_fitness(x)
        F.apply(vals)
        for T in (10, 25):
            s = F.sim(T)
            h.eq("absolute simulation", F.obj.rhozz_sim_dict[T], h.arr(s))
            h.eq("normalised simulation", F.obj.rzz_sim_dict[T], h.arr(F.normalise(T, s)))
            n = F.norm
            F.norm = True
            h.eq("normalised data", F.obj.rzz_data_dict[T], h.arr(F.measured(T)))
            F.norm = False
            h.eq("absolute data", F.obj.rhozz_data_dict[T], h.arr(F.measured(T)))
            F.norm = n
    return f


def cases(tier):
    one = [(10, "A", "mu"), (10, "A", "gamma_0")]
    two = [(10, "A", "gamma_0"), ("all", "A", "mu"), (25, "A", "energy_scale")]
    alls = [("all", "A", "mu"), ("all", "A", "gamma_k")]
    out = []
    for n in (True, False):
        s = "norm" if n else "abs"
        out += [("one_" + s, value([10], ["A"], one, n, more=True)),
                ("azimuths_" + s, value([10], ["A"], one, n, phis=(0, 45))), ("around_" + s, value([10], ["A"], one, n, phis=(-45, 225, 45))),
                ("grid4_" + s, value([10], ["A"], one, n, ngrid=4)),
                ("two_T_" + s, value([10, 25], ["A"], two, n, more=True)),
                ("many_points_" + s, value([10, 25, 4], ["A"], two, n, phis=(0, 15, 45), ngrid=3)),
                ("second_only_" + s, value([10, 25], ["A"], [(25, "A", "tp")], n)),
                ("bands_" + s, value([10, 25], ["A", "B"], [("all", "B", "mu"), (25, "A", "tp")], n)),
                ("three_T_" + s, value([25, 4, 10], ["A"], two, n)),
                ("five_T_" + s, value([25, 4, 10, 90, 50], ["A"], two, n)),
                ("shared_" + s, value([10, 25], ["A"], alls, n, more=True)),
                ("stored_" + s, stored(n))]
    return out
