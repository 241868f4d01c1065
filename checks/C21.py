"""C21 ADMR map."""
import numpy as np
from .maps import Fake, rhozz, det

BOUNDS = ("1-3, 5 and 6 bands with arbitrary (uninterpreted) conductivity tensors, 1-3 azimuths and 1-4 polar angles of any value; polar grids of 1 "
          "to 40 steps with any minimum and step, under rounding of the maximum; repeated runs with edits in between; one run through the "
          "complete transport computation")
OUTSIDE = "a singular total conductivity"
ASSUMPTIONS = ["the conductivity tensor of a band is an arbitrary function of the field angles", "the total tensor is invertible"]


def angles(h, n, tag="th"):
    out = [h.real(tag + "0", -20, 20)]
    for i in range(1, n):
        out.append(out[-1] + h.pos("%s%d" % (tag, i), 3, 20))
    return out


def make(h, nb, nphi, nth, tensor="full", norm=None, **kw):
    fakes = [Fake(h, "abcdefg"[i], tensor) for i in range(nb)]
    A = h.load("admr")
    phis = [h.real("phi%d" % i, 0, 90) for i in range(nphi)]
    ths = angles(h, nth)
    adm = A.ADMR([f.cond for f in fakes], Bphi_array=phis, show_progress=False, Btheta_norm=ths[0] if norm is None else norm, **kw)
    adm.Btheta_array = h.arr(ths)
    return fakes, adm, phis, ths


def check_map(h, fakes, adm, phis, ths, tag=""):
    h.same(tag + "shape", tuple(adm.rhozz_array.shape), (len(phis), len(ths)))
    h.eq(tag + "rhozz", adm.rhozz_array, h.arr([[rhozz(h, fakes, p, t) for t in ths] for p in phis]))


def maps(nb, nphi, nth, tensor="full", progress=False):
    def f(h):
        fakes, adm, phis, ths = make(h, nb, nphi, nth, tensor)
        adm.show_progress = progress
        want = [[rhozz(h, fakes, p, t) for t in ths] for p in phis]      # assumes invertibility before the code divides
        adm.runADMR()
        check_map(h, fakes, adm, phis, ths)
        for fk in fakes:
            h.eq("every point visited", h.arr([list(c) for c in sorted_calls(h, fk, phis, ths)]),
                 h.arr([[p, t] for p in phis for t in ths]), scale=1e-3)
    return f


def sorted_calls(h, fk, phis, ths):
    """the calls of one band; the order of the scan is not part of the claim, so look each wanted point up"""
    out = []
    for p in phis:
        for t in ths:
            hit = [c for c in fk.calls if same(h, c[0], p) and same(h, c[1], t)]
            out.append(hit[0] if hit else (float("nan"), float("nan")))
    return out


def same(h, a, b):
    if h.sym:
        from symx.terms import lift
        return not (lift(a) - lift(b)).p
    return a == b


def rerun(h):
    fakes, adm, phis, ths = make(h, 2, 1, 2, "diag")
    adm.runADMR()
    check_map(h, fakes, adm, phis, ths)
    # another field grid on the same object
    phis2, ths2 = [h.real("q0", 0, 90), h.real("q1", 0, 90)], angles(h, 3, "u")
    adm.Bphi_array, adm.Btheta_array = h.arr(phis2), h.arr(ths2)
    adm.runADMR()
    check_map(h, fakes, adm, phis2, ths2, "second ")
    # the bands changed
    for fk in fakes:
        g = h.uf("other" + fk.tag, "pos")
        fk.F[2, 2] = g
    adm.runADMR()
    check_map(h, fakes, adm, phis2, ths2, "third ")
    # one band removed
    adm.condObject_list = adm.condObject_list[:1]
    adm.runADMR()
    check_map(h, fakes[:1], adm, phis2, ths2, "fourth ")


def same_band_twice(h):
    """a band listed twice counts twice"""
    fk = Fake(h, "a")
    A = h.load("admr")
    phis, ths = [h.real("phi", 0, 90)], angles(h, 2)
    adm = A.ADMR([fk.cond, fk.cond], Bphi_array=phis, show_progress=False, Btheta_norm=ths[0])
    adm.Btheta_array = h.arr(ths)
    [rhozz(h, [fk, fk], p, t) for p in phis for t in ths]
    adm.runADMR()
    check_map(h, [fk, fk], adm, phis, ths)


def grid(ks, rounding=False):
    """minimum + i*step, i = 0..k, whatever the rounding of the maximum"""
    def f(h):
        fk = Fake(h, "a", "diag")
        A = h.load("admr")
        for k in ks:
            lo, st = h.real("lo%d" % k, -30, 30), h.pos("st%d" % k, 0.05, 3)
            eps = h.real("eps%d" % k, -1e-13, 1e-13)
            h.assume(abs(eps) <= st * h.num("0.0000000000001"))
            adm = A.ADMR([fk.cond], Btheta_min=lo, Btheta_max=lo + st * k + eps, Btheta_step=st, show_progress=False)
            h.same("number of angles", tuple(adm.Btheta_array.shape), (k + 1,))
            for i in range(k + 1):
                h.le("angles", abs(adm.Btheta_array[i] - (lo + st * i)), st * h.num("0.0000001"))
    return f


def grid_uneven(h):
    """a step that does not divide the range: the scan ends with the first angle beyond the maximum"""
    fk = Fake(h, "a", "diag")
    A = h.load("admr")
    for k in (0, 1, 2, 5, 10):
        lo, st = h.real("lo%d" % k, -30, 30), h.pos("st%d" % k, 0.05, 3)
        w = (k + h.real("w%d" % k, .05, .95, bounded=True)) * st
        adm = A.ADMR([fk.cond], Btheta_min=lo, Btheta_max=lo + w, Btheta_step=st, show_progress=False)
        h.same("number of angles", tuple(adm.Btheta_array.shape), (k + 2,))
        h.eq("angles", adm.Btheta_array, h.arr([lo + st * i for i in range(k + 2)]), scale=.1)


def grid_default(h):
    fk = Fake(h, "a", "diag")
    A = h.load("admr")
    adm = A.ADMR([fk.cond], show_progress=False)
    h.eq("angles", adm.Btheta_array, h.arr([5 * i for i in range(23)]))
    h.eq("azimuths", adm.Bphi_array, h.arr([0, 15, 30, 45]))
    adm = A.ADMR([fk.cond], show_progress=False, Btheta_min=h.num("0"), Btheta_max=h.num("1"), Btheta_step=h.num("0.1"))
    h.eq("tenths", adm.Btheta_array, h.arr([h.q(i, 10) for i in range(11)]), scale=1e-2)


def end_to_end(field):
    """two bands through the complete transport computation"""
    def f(h):
        from .pipe import Pipe
        P = Pipe(h, 2, 2, tag="a", field=field, models=("ge",))
        Q = Pipe(h, 1, 2, tag="b", field=field, ig=P.ig, world=P.C)
        A = h.load("admr")
        phi, th = h.real("phi", 0, 90), h.real("th", 0, 90)
        adm = A.ADMR([P.cond, Q.cond], Bphi_array=[phi], show_progress=False, Btheta_norm=th)
        adm.Btheta_array = h.arr([th])
        for X in (P, Q):
            X.speeds()
        s = [[P.sigma()[i, j] + Q.sigma()[i, j] for j in range(3)] for i in range(3)]
        if not h.sym and abs(det(s)) < 1e-9 * max(abs(x) for r in s for x in r) ** 3:
            h.nonzero(0)
        adm.runADMR()
        for X in (P, Q):
            h.eq("azimuth", X.cond.Bphi, phi)
            h.eq("polar angle", X.cond.Btheta, th)
            h.eq("band tensor", X.cond.sigma, X.sigma())
        s = P.cond.sigma + Q.cond.sigma
        h.eq("rhozz", adm.rhozz_array, h.arr([[(s[0, 0] * s[1, 1] - s[0, 1] * s[1, 0]) / det(s)]]))
    return f


def cases(tier):
    out = [("map_1_1_1", maps(1, 1, 1)), ("map_1_2_3", maps(1, 2, 3)), ("map_2_2_2", maps(2, 2, 2)), ("map_3_1_2", maps(3, 1, 2)),
           ("map_2_3_4", maps(2, 3, 4, "diag")), ("map_5_1_2", maps(5, 1, 2, "diag")), ("map_6_1_1", maps(6, 1, 1, "diag")), ("progress", maps(1, 2, 2, "diag", True)),
           ("rerun", rerun), ("twice", same_band_twice), ("grid_1", grid((1, 2, 3))), ("grid_2", grid((5, 10))), ("grid_3", grid((17, 40))),
           ("uneven", grid_uneven), ("default", grid_default), ("end_on", end_to_end(True)), ("end_off", end_to_end(False))]
    if tier == "thorough":
        out += [("map_3_3_5", maps(3, 3, 5)), ("grid_4", grid((80, 120)))]
    return out
