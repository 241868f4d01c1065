"""C18 band isolation and the right energy."""
import numpy as np
from .pipe import Pipe

BOUNDS = ("zero and finite temperature (2-4 energies), field on and off, 1-2 carriers, 2 time steps; up to 3 runs in a row on the same "
          "object with edits of field, temperature and window in between; arbitrary surfaces at each energy")
OUTSIDE = ""
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state and of the time",
               "no carrier is exactly at rest"]
FIELDS = ("kf", "vf", "dkf", "dos_k", "k_max", "band_params", "resolution", "number_of_bz", "n", "p", "mc", "a", "b", "c", "energy_scale",
          "march_square", "band_model", "dks", "dkz")


def snap(b):
    out = {}
    for n in FIELDS:
        if hasattr(b, n):
            v = getattr(b, n)
            out[n] = (v, dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v.copy() if isinstance(v, np.ndarray) else v)
    return out


def unchanged(h, b, s, tag=""):
    for n, (obj, val) in s.items():
        now = getattr(b, n)
        if isinstance(val, np.ndarray):
            h.eq(tag + "caller's band: " + n, now, val)
        elif isinstance(val, (dict, list)):
            h.true(tag + "caller's band: " + n, type(now) is type(obj) and len(now) == len(val)
                   and all((now[k] is val[k] or now[k] == val[k]) for k in (val if isinstance(val, dict) else range(len(val)))))
        else:
            h.true(tag + "caller's band: " + n, now is val or bool(now == val))


def speeds(P, es):
    for e in es:
        P.speeds(e)


def result(h, P, tag):
    c = P.cond
    if isinstance(P.T, int):
        h.eq(tag + "sigma", c.sigma, P.sigma(0))
    else:
        s, a, b = P.window_sums(P.energies())
        h.eq(tag + "sigma", c.sigma, s)
        h.eq(tag + "alpha", c.alpha, a, scale=1e-30)
        h.eq(tag + "beta", c.beta, b)
    own = c.bandObject
    h.eq(tag + "left on the Fermi surface", own.kf, h.arr(P.surface(0)))
    h.eq(tag + "weights of the Fermi surface", own.dkf, h.arr(P.weights(0)))
    k = P.surface(0)
    v = [P.vel([k[d][p] for d in range(3)]) for p in range(P.N)]
    h.eq(tag + "velocities of the Fermi surface", own.vf, h.arr([[v[p][d] for p in range(P.N)] for d in range(3)]))
    h.eq(tag + "density of the Fermi surface", own.dos_k,
         h.arr([1 / (h.const("hbar") * h.np.sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2)) for x in v]))


def harness(N, neps, field, temp, models=("gk",), runs=2, temps=(5, 60)):
    def f(h):
        P = Pipe(h, N, 2, temp=temp, neps=neps, field=field, models=models, temps=temps)
        speeds(P, (P.energies() if temp else []) + [0])
        orig, s = P.band, snap(P.band)
        h.true("own band", P.cond.bandObject is not orig)
        for i in range(runs):
            P.cond.runTransport()
            result(h, P, "run %d " % i)
            unchanged(h, orig, s, "run %d " % i)
    return f


def mixed(order, field=False):
    """zero-temperature and finite-temperature runs on the same object"""
    def f(h):
        P = Pipe(h, 1, 2, temp=True, neps=2, field=field, models=("gk", "ge"))
        T = P.T
        orig, s = P.band, snap(P.band)
        P.speeds(0)
        speeds(P, P.energies())
        for i, hot in enumerate(order):
            P.T = T if hot else 0
            P.cond.T = P.T
            P.cond.runTransport()
            result(h, P, "run %d " % i)
        unchanged(h, orig, s)
    return f


def edited(seq, field, temp, models=("gk", "ge"), N=1, neps=2):
    """runs in a row with edits of the field, the rates, the number of steps and the window in between"""
    def f(h):
        P = Pipe(h, N, 2, temp=temp, neps=neps, field=field, models=models, field_flow=True)
        orig, s = P.band, snap(P.band)
        c = P.cond
        for i, what in enumerate(("start",) + tuple(seq)):
            for w in what.split("+"):
                if w in ("Bamp", "Bphi", "Btheta"):
                    P.v[w] = h.real("%s_%d" % (w, i), 5, 45)
                    if w == "Bamp":
                        h.nonzero(P.v[w])
                    setattr(c, w, P.v[w])
                if w == "rate":
                    P.g = {"g1": h.pos("g1_%d" % i)}
                    c.scattering_params = dict(P.g)
                if w == "steps":
                    P.nt = c.N_time = 3
                if w == "window":
                    P.cut = c.dfdE_cut_percent = h.num("0.5")
                if w == "more":
                    c.N_epsilon = neps + 1
                if w == "T":
                    P.T = c.T = h.pos("T_%d" % i, 5, 60)
            speeds(P, (P.energies() if temp else []) + [0])
            c.runTransport()
            result(h, P, "run %d " % i)
        unchanged(h, orig, s)
    return f


def edits(h):
    """editing the transport object's band leaves the original alone, and the reverse"""
    P = Pipe(h, 2, 2, field=False)
    P.speeds(0)
    orig, s = P.band, snap(P.band)
    own = P.cond.bandObject
    own.set_band_param("t", h.real("t2")) if hasattr(own, "set_band_param") else own.__setitem__("t", h.real("t2"))
    own.band_params["mu"] = h.real("mu2")
    own.k_max[0] = h.real("km")
    unchanged(h, orig, s, "own edited: ")
    P2 = Pipe(h, 2, 2, field=False, tag="2")
    P2.speeds(0)
    mine, s2 = P2.cond.bandObject, None
    s2 = snap(mine)
    P2.band["t"] = h.real("t3")
    P2.band.a = h.pos("anew")
    P2.band.kf = None
    P2.band.k_max[1] = h.real("km2")
    unchanged(h, mine, s2, "caller edits: ")
    P2.cond.runTransport()
    h.eq("sigma after the caller's edits", P2.cond.sigma, P2.sigma(0))


def two_objects(h):
    """two transport objects built from one band do not disturb each other"""
    P = Pipe(h, 1, 2, temp=True, neps=2, field=False, models=("ge",))
    P.speeds(0)
    speeds(P, P.energies())
    C = P.C
    other = type(P.cond)(P.band, 0, N_time=3, scattering_models=["gk"], scattering_params={"g1": h.pos("og")})
    P.cond.runTransport()
    h.true("separate bands", other.bandObject is not P.cond.bandObject)
    h.eq("other keeps its surface", other.bandObject.kf, h.arr(P.surface(0)))
    other.runTransport()
    result(h, P, "")
    k = [P.surface(0)[d][0] for d in range(3)]
    h.eq("other's own rate", other.t_o_tau, h.arr([P.G["gk"](*k, other.g1)]))


def cases(tier):
    out = [("cold_on", harness(2, 2, True, False)), ("cold_off", harness(2, 2, False, False, ("gk", "gv"), 3)),
           ("hot_on", harness(1, 3, True, True, ("gk", "ge"))), ("hot_off", harness(1, 4, False, True, ("ge",), 3)),
           ("hot_off_2", harness(2, 2, False, True)),
           ("very_cold", harness(1, 3, False, True, ("ge",), 1, (0.02, 0.2))),
           ("cold_hot_cold", mixed((0, 1, 0))), ("hot_cold_hot", mixed((1, 0, 1))), ("mixed_on", mixed((1, 0), True)),
           ("hot_field", edited(("Btheta",), True, True, ("gk",))), ("hot_rate", edited(("rate", "rate"), False, True)),
           ("hot_steps", edited(("steps+rate",), True, True, ("gk",))), ("hot_window", edited(("window", "more", "T"), False, True, ("ge",))),
           ("cold_field", edited(("Bphi", "Bamp+rate"), True, False, ("gk", "gv"))),
           ("cold_steps", edited(("steps", "Btheta"), True, False, ("gk",), 2)),
           ("edits", edits), ("two_objects", two_objects)]
    if tier == "thorough":
        out += [("hot_on_2", harness(2, 4, True, True, ("gk", "gv", "ge"))), ("hot_on_5", harness(1, 5, True, True, ("gk", "gv", "ge"), 3))]
    return out
