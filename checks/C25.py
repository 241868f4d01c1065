"""C25 angle grid of the multi-temperature fit."""
import itertools
import numpy as np

BOUNDS = ("data for 1-3 temperatures with 1-3 and 5 azimuths each, in every order of extremes; polar grids of 1 to 60 smallest steps, with any "
          "minimum and step, under rounding of the requested maximum")
OUTSIDE = "ranges exactly half-way between two whole numbers of smallest steps"
ASSUMPTIONS = ["all entries of one temperature state the same reference angle"]


def entry(lo, hi, st, ref, scale=1):
    return ["file", 0, 1, lo, hi, st, ref, scale]


def check(h, F, T, data, phis, lo, k, st, ref, tag=""):
    obj = F.FitAnglesADMR(T, data)
    got_phi, got_th = obj.create_angles()
    for o in ((got_phi, got_th), (obj.Bphi_array, obj.Btheta_array)):
        h.same(tag + "number of azimuths", tuple(o[0].shape), (len(phis),))
        h.same(tag + "azimuths", sorted(float(x) for x in o[0]), sorted(float(x) for x in phis))
        h.same(tag + "number of angles", tuple(o[1].shape), (k + 1,))
        for i in range(k + 1):
            h.le(tag + "angles", abs(o[1][i] - (lo + st * i)), st * h.num("0.0000001"))
    h.eq(tag + "reference", obj.Btheta_norm, ref)


def single(ks):
    def f(h):
        F = h.load("fitting_admr_parallel_multiT")
        for k in ks:
            lo, st, ref = h.real("lo%d" % k, -30, 30), h.pos("st%d" % k, 0.05, 4), h.real("ref%d" % k)
            eps = h.real("eps%d" % k, -1e-13, 1e-13)
            h.assume(abs(eps) <= st * h.num("0.0000000000001"))
            data = {(10, 0): entry(lo, lo + st * k + eps, st, ref)}
            check(h, F, 10, data, [0], lo, k, st, ref)
    return f


def several(order, k):
    """three azimuths; which one has the smallest minimum, largest maximum and smallest step depends on the order"""
    def f(h):
        F = h.load("fitting_admr_parallel_multiT")
        lo, st, ref = h.real("lo", -30, 30), h.pos("st", 0.3, 4), h.real("ref")
        hi = lo + st * k
        los = [lo, lo + h.pos("l1", 0, 1), lo + h.pos("l2", 0, 1)]
        his = [hi, hi - h.pos("h1", 0, 1), hi - h.pos("h2", 0, 1)]
        sts = [st, st + h.pos("s1", 0, 2), st + h.pos("s2", 0, 2)]
        phis = [0, 45, -45]
        data = {}
        for i, p in enumerate(phis):
            data[10, p] = entry(los[order[0][i]], his[order[1][i]], sts[order[2][i]], ref)
            # another temperature with wider, finer entries in between
            data[25, p] = entry(lo - 10, hi + 10, st / 7, ref + 1)
            if i == 1:
                data[10.5, 60] = entry(lo - 3 * st, hi + 5 * st, st / 3, ref - 1)
        check(h, F, 10, data, phis, lo, k, st, ref)
        k2 = None
        obj = F.FitAnglesADMR(10.5, data)
        p, t = obj.create_angles()
        h.same("azimuths of the lonely temperature", [float(x) for x in p], [60.0])
        h.eq("first angle", t[0], lo - 3 * st)
        h.eq("last angle", t[len(t) - 1], hi + 5 * st)
        h.eq("reference", obj.Btheta_norm, ref - 1)
    return f


def five(h):
    """five azimuths, the extremes at the first and the last ones"""
    F = h.load("fitting_admr_parallel_multiT")
    for order in ((0, 4, 2), (4, 0, 1), (3, 1, 0), (1, 2, 3)):
        t = "_%d" % order[0]
        lo, st, ref = h.real("lo" + t, -30, 30), h.pos("st" + t, 0.3, 4), h.real("ref" + t)
        dl, dh, ds = h.pos("l" + t, 0, .2), h.pos("h" + t, 0, .2), h.pos("s" + t, 0, 2)
        k = 4
        hi = lo + st * k
        data = {}
        phis = [200, -45, 15.5, 45, -15.5]
        for i, p in enumerate(phis):
            r = [(i - o) % 5 for o in order]
            data[10, p] = entry(lo + dl * r[0], hi - dh * r[1], st + ds * r[2], ref)
        check(h, F, 10, data, phis, lo, k, st, ref)


def uneven(h):
    """a step that does not divide the range: equal steps from the smallest minimum to the largest maximum, as close to it as possible"""
    F = h.load("fitting_admr_parallel_multiT")
    for k in (1, 2, 5, 9):
        for s in (-1, 1):
            t = "%d%s" % (k, "p" if s > 0 else "m")
            lo, st = h.real("lo" + t, -30, 30), h.pos("st" + t, 0.3, 4)
            w = (k + s * h.real("w" + t, .1, .45, bounded=True)) * st
            obj = F.FitAnglesADMR(10, {(10, 0): entry(lo, lo + w, st, 0)})
            th = obj.create_angles()[1]
            h.same("number of angles", tuple(th.shape), (k + 1,))
            h.eq("angles", th, h.arr([lo + w * h.q(i, k) for i in range(k + 1)]), scale=.1)


def missing(h):
    """a temperature without azimuth 15 does not get it from another one"""
    F = h.load("fitting_admr_parallel_multiT")
    lo, st = h.real("lo", -30, 30), h.pos("st", 1, 4)
    data = {(10, 0): entry(lo, lo + 3 * st, st, 0), (25, 15): entry(lo, lo + 2 * st, st, 5), (25, 0): entry(lo, lo + 2 * st, st, 5),
            (10, 30): entry(lo, lo + 3 * st, st, 0)}
    check(h, F, 10, data, [0, 30], lo, 3, st, 0)
    check(h, F, 25, data, [0, 15], lo, 2, st, 5)


def reused(h):
    """two grids built from the same dictionary do not disturb each other"""
    F = h.load("fitting_admr_parallel_multiT")
    lo, st = h.real("lo", -30, 30), h.pos("st", 1, 4)
    data = {(10, 0): entry(lo, lo + 3 * st, st, 0), (25, 15): entry(lo, lo + 2 * st, st / 2, 5)}
    before = {k: list(v) for k, v in data.items()}
    check(h, F, 10, data, [0], lo, 3, st, 0)
    check(h, F, 25, data, [15], lo, 4, st / 2, 5)
    check(h, F, 10, data, [0], lo, 3, st, 0)
    h.true("dictionary intact", before.keys() == data.keys() and all(len(before[k]) == len(data[k]) and
                                                                    all(a is b for a, b in zip(before[k], data[k])) for k in data))


def cases(tier):
    out = [("single_1", single((1, 2, 3))), ("single_2", single((9, 10))), ("single_3", single((22, 60)))]
    perms = list(itertools.permutations(range(3)))
    pick = [(perms[i], perms[(2 * i + 1) % 6], perms[(5 - i)]) for i in range(6)]
    out += [("several_%d" % i, several(o, (1, 3, 8)[i % 3])) for i, o in enumerate(pick)]
    out += [("missing", missing), ("reused", reused), ("five", five), ("uneven", uneven)]
    if tier == "thorough":
        out += [("all_%d_%d_%d" % (a, b, c), several((perms[a], perms[b], perms[c]), 4)) for a in range(6) for b in range(0, 6, 2) for c in range(1, 6, 2)]
    return out
