"""C20 cyclotron frequency times lifetime."""
import numpy as np
from .pipe import Pipe

BOUNDS = ("1-4 surface points (6 thorough), arbitrary surfaces, velocities, fields and combinations of scattering models; before and after "
          "runs, edits of the field amplitude, angle and scattering parameters")
OUTSIDE = ""
ASSUMPTIONS = ["no carrier has zero in-plane momentum or speed"]


def check(h, P, tag=""):
    c = P.cond
    c.omegac_tau_func()
    k = P.surface()
    want, dev = [], []
    for p in range(P.N):
        kp = [k[d][p] for d in range(3)]
        v = P.vel(kp)
        h.assume(kp[0] ** 2 + kp[1] ** 2 > 0)
        h.assume(v[0] ** 2 + v[1] ** 2 > 0)
        tau = 1 / P.gamma(kp, v, 0)
        ps, ang = h.q(1, 10 ** 12), h.q(1, 10 ** 10)
        w = P.cond.Bamp * h.const("q_e") * h.np.sqrt(v[0] ** 2 + v[1] ** 2) / (h.const("hbar") * h.np.sqrt(kp[0] ** 2 + kp[1] ** 2) / ang)
        want.append(w * tau * ps)
        dev.append(w / tau * ps)
    h.known(tag + "omegac_tau", c.omegac_tau_k, h.arr(want), h.arr(dev), "lifetime-inverted")


def run(N, models):
    def f(h):
        P = Pipe(h, N, 2, models=models)
        check(h, P)
    return f


def edits(h):
    P = Pipe(h, 2, 2, models=("gk", "gv"))
    P.cond.runTransport()
    check(h, P)
    P.cond.Bamp = P.v["Bamp"] = h.real("B2", 5, 45)
    h.nonzero(P.v["Bamp"])
    check(h, P, "field ")
    P.cond.Btheta = P.v["Btheta"] = h.real("th2", 5, 45)
    P.cond.Bphi = P.v["Bphi"] = h.real("ph2", 5, 45)
    check(h, P, "angle ")
    P.g["g1"] = h.pos("g1b")
    P.cond.scattering_params = dict(P.g)
    check(h, P, "rate ")


def cases(tier):
    out = [("n%d_%s" % (N, "".join(x[1] for x in m)), run(N, m)) for N, m in ((1, ("gk",)), (1, ("gv",)), (2, ("gk", "gv", "ge")), (4, ("gv",)))]
    out.append(("edits", edits))
    if tier == "thorough":
        out += [("n6", run(6, ("gk", "gv", "ge")))]
    return out
