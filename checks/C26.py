"""C26 measured data of the multi-temperature fit."""
import itertools
import numpy as np
from .fit import Files, table, at

BOUNDS = ("files of 1-4 points in every row order (5 thorough), 2-5 columns with any choice of the two that matter, 1-3 azimuths, grids of "
          "1-3 angles anywhere relative to the measured ones, any reference angle and scale factor; loading twice")
OUTSIDE = "repeated angles in one file; np.loadtxt itself"
ASSUMPTIONS = ["np.loadtxt returns the table of the file"]


def run(h, F, files, T, data, phis, grid, ref, tabs, tag="", obj=None, scales=None):
    obj = obj or F.DataADMR(T, data, np.array(phis), h.arr(grid))
    obj.load_data(ref)
    rho, rzz = [], []
    for p in phis:
        th, val = tabs[p]
        v = [at(x, th, val) for x in grid]
        n = at(ref, th, val)
        rho.append([x * data[T, p][7] for x in v])
        rzz.append([x / n for x in v])
    h.same(tag + "shape", tuple(obj.rhozz_data_matrix.shape), (len(phis), len(grid)))
    h.eq(tag + "absolute data", obj.rhozz_data_matrix, h.arr(rho))
    h.eq(tag + "normalised data", obj.rzz_data_matrix, h.arr(rzz))
    return obj


def orders(n, ngrid, perms, free=True):
    def f(h):
        F0 = Files(h)
        F = h.load("fitting_admr_parallel_multiT", F0.stubs())
        sc, ref = h.pos("scale"), h.real("ref", -10, 30)
        grid = [h.real("g%d" % i, -12, 40) for i in range(ngrid)]
        for k, o in enumerate(perms):
            rows, th, val = table(h, "", n, o, (0, 1), 2)
            F0.add("f", rows)
            data = {(10, 0): ["f", 0, 1, grid[0], grid[-1], 1, ref, sc]}
            run(h, F, F0, 10, data, [0], grid, ref, {0: (th, val)}, "order %d " % k)
    return f


def columns(cols, ncol):
    def f(h):
        F0 = Files(h)
        F = h.load("fitting_admr_parallel_multiT", F0.stubs())
        grid = [h.real("g0", -12, 40)]
        rows, th, val = table(h, "", 2, (1, 0), cols, ncol)
        F0.add("f", rows)
        data = {(10, 0): ["f", cols[0], cols[1], 0, 1, 1, 0, h.pos("scale")]}
        run(h, F, F0, 10, data, [0], grid, h.real("ref", -10, 30), {0: (th, val)})
    return f


def several(phis, other_T=False):
    """each azimuth reads its own file, columns and scale"""
    def f(h):
        F0 = Files(h)
        F = h.load("fitting_admr_parallel_multiT", F0.stubs())
        data, tabs = {}, {}
        for i, p in enumerate(phis):
            cols = ((0, 1), (2, 0), (1, 3))[i]
            rows, th, val = table(h, "p%d" % i, 2, ((0, 1), (1, 0))[i % 2], cols, 4, lo=-5 - i)
            F0.add("file%d" % i, rows)
            data[10, p] = ["file%d" % i, cols[0], cols[1], 0, 1, 1, 0, h.pos("scale%d" % i)]
            tabs[p] = (th, val)
            rows2, _, _ = table(h, "q%d" % i, 2, (0, 1), (0, 1), 4)
            F0.add("other%d" % i, rows2)
            data[25, p] = ["other%d" % i, 0, 1, 0, 1, 1, 0, h.pos("scaleq%d" % i)]
        # a grid inside every measured range
        grid = []
        base = [t[0] for t in tabs.values()]
        lo, hi = h.real("glo", -3, 0), h.real("ghi", 0, 0.5)
        for th, _ in tabs.values():
            h.assume(th[0] < lo)
            h.assume(hi < th[1])
        h.assume(lo < hi)
        grid = [lo, hi]
        ref = (lo + hi) / 2
        obj = run(h, F, F0, 10, data, phis, grid, ref, tabs)
        run(h, F, F0, 10, data, phis, grid, ref, tabs, "again ", obj)
        run(h, F, F0, 10, data, list(reversed(phis)), grid, lo, tabs, "reversed ")
    return f


def default_reference(h):
    F0 = Files(h)
    F = h.load("fitting_admr_parallel_multiT", F0.stubs())
    rows, th, val = table(h, "", 3, (2, 0, 1), (0, 1), 2)
    F0.add("f", rows)
    data = {(10, 0): ["f", 0, 1, 0, 1, 1, 0, h.num("0.01")]}
    obj = F.DataADMR(10, data, np.array([0]), h.arr([th[1]]))
    obj.load_data()
    h.eq("normalised", obj.rzz_data_matrix, h.arr([[val[1] / at(h.q(0), th, val)]]))
    h.eq("absolute", obj.rhozz_data_matrix, h.arr([[val[1] * h.num("0.01")]]))


def cases(tier):
    p3 = list(itertools.permutations(range(3)))
    p4 = [(3, 1, 0, 2), (1, 3, 2, 0)]
    out = [("one_point", orders(1, 2, [(0,)])), ("two_points", orders(2, 2, [(0, 1), (1, 0)])),
           ("three_a", orders(3, 1, p3[:3])), ("three_b", orders(3, 1, p3[3:])), ("four_a", orders(4, 1, p4[:1])), ("four_b", orders(4, 1, p4[1:]))]
    out += [("cols_%d%d" % c, columns(c, n)) for c, n in (((1, 0), 2), ((0, 2), 3), ((4, 2), 5), ((3, 4), 5))]
    out += [("azimuths_2", several([0, 45])), ("azimuths_3", several([30, 0, 45])), ("azimuths_around", several([-30, 210, 30])), ("default", default_reference)]
    if tier == "thorough":
        out += [("three_2_%d" % i, orders(3, 2, [p]), {"max_paths": 3000}) for i, p in enumerate(p3)]
        out += [("five", orders(5, 1, [(4, 0, 3, 1, 2)]))]
    return out
