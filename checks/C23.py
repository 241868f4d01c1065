"""C23 total filling and doping."""
import numpy as np
from .maps import Fake
from .common import Band

BOUNDS = ("1-4 bands of any filling; up to 4 runs in a row with changes of the fillings, of the list of bands and of the field in between; "
          "reported values compared after construction, after explicit updates and after complete scans")
OUTSIDE = "the filling of one band (C05)"
ASSUMPTIONS = []


def build(h, nb, world=None):
    fakes = [Fake(h, "abcd"[i], "diag") for i in range(nb)]
    A = h.load("admr")
    adm = A.ADMR([f.cond for f in fakes], Bphi_array=[0], Btheta_min=0, Btheta_max=10, Btheta_step=10, show_progress=False)
    return fakes, adm


def check(h, fakes, adm, tag=""):
    tot = 0
    for f in fakes:
        tot = tot + f.cond.bandObject.n
    h.eq(tag + "total filling", adm.total_filling, tot, scale=1e-3)
    h.eq(tag + "total hole doping", adm.total_hole_doping, 1 - tot, scale=1e-3)


def runs(nb, n):
    def f(h):
        fakes, adm = build(h, nb)
        for i in range(n):
            adm.runADMR()
            check(h, fakes, adm, "run %d " % i)
            tot = 0
            for fk in fakes:
                tot = tot + fk.n
            h.eq("run %d of the given bands" % i, adm.total_filling, tot, scale=1e-3)
    return f


def changes(h):
    fakes, adm = build(h, 3)
    adm.runADMR()
    check(h, fakes, adm)
    for i, k in enumerate((1, 0, 2)):
        fakes[k].cond.bandObject.n = h.real("n_%d" % i, 0, 1)
        adm.runADMR()
        check(h, fakes, adm, "change %d " % i)
        fakes[k].cond.Bamp = h.real("Bb%d" % i, 1, 40)
        adm.update_total_doping()
        check(h, fakes, adm, "update %d " % i)
    adm.condObject_list = adm.condObject_list[1:]
    adm.runADMR()
    check(h, fakes[1:], adm, "fewer ")


def two_objects(h):
    """two scans over the same bands do not accumulate in each other"""
    fakes, adm = build(h, 2)
    A = h.world.load("cuprates_transport.admr")
    other = A.ADMR([fakes[1].cond], Bphi_array=[0], Btheta_min=0, Btheta_max=10, Btheta_step=10, show_progress=False)
    for i in range(2):
        adm.runADMR()
        other.runADMR()
        check(h, fakes, adm, "both ")
        check(h, fakes[1:], other, "one ")


def real_filling(h):
    """fillings computed by the band itself (uninterpreted energies on its own grid), refreshed between scans"""
    C = h.load("conductivity")
    A = h.world.load("cuprates_transport.admr")
    objs = []
    for t in "ab":
        b = Band(h, 1, tag=t, nbz=1).bare()
        lev = h.uf("n" + t)
        objs.append((b, lev))
    conds = []
    for b, lev in objs:
        c = C.Conductivity(b, 0, scattering_models=["isotropic"], scattering_params={"gamma_0": 1})

        def run(c=c, lev=lev):
            # what a finite-temperature run does: the surface, and with it the filling, is computed again
            c.bandObject.n = lev(c.Btheta)
            one = h.q(1)
            c.sigma = h.arr([[one, 0, 0], [0, one, 0], [0, 0, one]])
        c.runTransport = run
        conds.append(c)
    adm = A.ADMR(conds, Bphi_array=[0], Btheta_min=0, Btheta_max=20, Btheta_step=10, show_progress=False)
    for i in range(2):
        adm.runADMR()
        tot = objs[0][1](20) + objs[1][1](20)
        h.eq("filling after the last point", adm.total_filling, tot, scale=1e-3)
        h.eq("doping after the last point", adm.total_hole_doping, 1 - tot, scale=1e-3)


def cases(tier):
    out = [("runs_%d" % n, runs(n, 3)) for n in (1, 2, 4)] + [("changes", changes), ("two_objects", two_objects), ("refreshed", real_filling)]
    if tier == "thorough":
        out += [("runs_long", runs(4, 8))]
    return out
