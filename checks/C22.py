"""C22 normalised map."""
import numpy as np
from .maps import Fake, rhozz, interp
from .C21 import make, angles

BOUNDS = ("1-2 bands, 1-3 azimuths, 1-4 polar angles (5 thorough), any reference angle: on a grid point, between points, at the ends, "
          "outside the grid; repeated runs with another reference")
OUTSIDE = "zero resistivity at the reference"
ASSUMPTIONS = ["the conductivity tensor of a band is an arbitrary function of the field angles"]


def check(h, fakes, adm, phis, ths, ref, tag="", inside=True):
    rho = [[rhozz(h, fakes, p, t) for t in ths] for p in phis]
    h.eq(tag + "map not altered", adm.rhozz_array, h.arr(rho))
    h.same(tag + "shape", tuple(adm.rzz_array.shape), (len(phis), len(ths)))
    want = []
    for r in rho:
        n = interp(ref, ths, r)
        want.append([x / n for x in r])
    h.eq(tag + "normalised", adm.rzz_array, h.arr(want))
    if inside:
        for i in range(len(phis)):
            h.eq(tag + "one at the reference", interp(ref, ths, [adm.rzz_array[i, j] for j in range(len(ths))]), 1)


def harness(nb, nphi, nth, where):
    def f(h):
        fakes, adm, phis, ths = make(h, nb, nphi, nth, "diag")
        if where == "free":
            ref = h.real("ref", -20, 60)
            inside = False
        elif where == "between":
            ref = ths[0] + (ths[-1] - ths[0]) * h.q(2, 5)
            inside = True
        elif where == "inside":
            lam = h.pos("lam", 0, 1)
            h.assume(lam < 1)
            i = nth // 2
            ref = ths[i - 1] + (ths[i] - ths[i - 1]) * lam
            inside = True
        else:
            ref = ths[where]
            inside = True
        adm.Btheta_norm = ref
        adm.runADMR()
        check(h, fakes, adm, phis, ths, ref, inside=inside)
    return f


def constructor(h):
    fakes, adm, phis, ths = make(h, 1, 2, 3, "diag", norm=h.real("ref", -20, 60))
    adm.runADMR()
    check(h, fakes, adm, phis, ths, h.real("ref", -20, 60), inside=False)


def full(h):
    fakes, adm, phis, ths = make(h, 1, 1, 2, "full")
    ref = ths[0] + (ths[1] - ths[0]) * h.q(1, 3)
    adm.Btheta_norm = ref
    [rhozz(h, fakes, p, t) for p in phis for t in ths]
    adm.runADMR()
    rho = [[rhozz(h, fakes, p, t) for t in ths] for p in phis]
    n = interp(ref, ths, rho[0])
    h.nonzero(n)
    h.eq("normalised", adm.rzz_array, h.arr([[x / n for x in rho[0]]]))


def default_reference(h):
    """the default reference is zero degrees"""
    fk = Fake(h, "a", "diag")
    A = h.load("admr")
    adm = A.ADMR([fk.cond], Bphi_array=[h.real("phi")], show_progress=False, Btheta_min=-10, Btheta_max=20, Btheta_step=15)
    adm.runADMR()
    check(h, [fk], adm, [h.real("phi")], [h.q(-10), h.q(5), h.q(20)], h.q(0))


def rerun(h):
    fakes, adm, phis, ths = make(h, 1, 2, 3, "diag")
    adm.runADMR()
    check(h, fakes, adm, phis, ths, ths[0])
    for k, ref in enumerate((ths[2], ths[1], (ths[0] + ths[1]) / 2)):
        adm.Btheta_norm = ref
        adm.runADMR()
        check(h, fakes, adm, phis, ths, ref, "run %d " % k)


def cases(tier):
    out = [("on_%d" % i, harness(1, 2, 3, i)) for i in (0, 1, 2)]
    out += [("single", harness(1, 3, 1, 0)), ("between", harness(2, 2, 2, "between")), ("inside", harness(1, 3, 4, "inside")),
            ("free", harness(1, 2, 3, "free")), ("constructor", constructor), ("full", full), ("default", default_reference),
            ("rerun", rerun)]
    if tier == "thorough":
        out += [("free_5", harness(2, 3, 5, "free")), ("inside_5", harness(2, 3, 5, "inside"))]
    return out
