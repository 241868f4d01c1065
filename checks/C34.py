"""C34 transport results depend on the current settings only, not on the history of the object."""
import numpy as np
from .common import Integrator
from .C01 import Q1D

BOUNDS = ("every setting of a transport object (field amplitude, angles, on and off; temperature, zero and not; steps; samples; cut-off; rates; "
          "list of models; solver tolerances; parameters of its own band) changed alone, in the pairs listed (all ordered pairs thorough) and in "
          "a longer scan, with a run before, between and after; 1-2 carriers, 2-3 steps, 2-3 energies; arbitrary surfaces, velocities, orbits, rates; "
          "the constant, angular and density-of-states rates of the package")
OUTSIDE = "writing into private attributes"
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state, its initial rate of change, the time and the tolerances",
               "no carrier is exactly at rest"]
READ = ["sigma", "t_o_tau", "tau_tot", "kft", "vft", "time_array", "dtime", "dtime_array", "time_max", "B_vector", "gamma_tot_max",
        "gamma_tot_min", "omegac_tau_k"]
HOT = ["alpha", "beta", "epsilon_array"]


class Solver(Integrator):
    """the answer depends on the problem as a whole"""

    def _solve(self, fun, y0, ts, rtol, atol):
        h = self.h
        y0 = np.array(list(np.asarray(y0).reshape(-1)), dtype=object)
        n = len(y0) // 3
        r = list(np.asarray(fun(h.arr(list(y0)), ts[0])).reshape(-1))
        out = np.empty((len(ts), 3 * n), dtype=object)
        for i, t in enumerate(ts):
            for p in range(n):
                k = self.flow([y0[p], y0[n + p], y0[2 * n + p]], t, i == 0, (r[p], r[n + p], r[2 * n + p], rtol, atol))
                out[i, p], out[i, n + p], out[i, 2 * n + p] = k
        return h.arr(out)


class World:
    def __init__(self, h, N):
        self.h = h
        self.C = C = h.load("conductivity", Solver(h).stubs())
        bs = h.world.load("cuprates_transport.bandstructure")
        S = [[h.uf("k%s%d" % (d, p)) for p in range(N)] for d in "xyz"]
        D = [h.uf("dkf%d" % p, "pos") for p in range(N)]
        V = [h.uf("v" + d) for d in "xyz"]

        class Bd(bs.BandStructure):
            def marching_square(self, epsilon=0):
                m = (epsilon, self["mu"] * self.energy_scale)
                k = [[f(*m) for f in row] for row in S]
                for p in range(N):
                    v = self.velocity_func(*[k[d][p] for d in range(3)])
                    h.assume(v[0] ** 2 + v[1] ** 2 + v[2] ** 2 > 0)
                return h.arr(k), h.arr([f(*m) for f in D])
            marching_cube = marching_square

            def update_filling(self, *a, **k):
                return 0

            def doping(self, *a, **k):
                return 0

            def velocity_func(self, kx, ky, kz):
                m = self["mu"] * self.energy_scale
                return tuple(f(kx, ky, kz, m) for f in V)
        G = {n: h.uf("rate_" + n, "pos") for n in ("gk", "gv", "ge")}

        class Sc(C.Conductivity):
            def gk(self, kx, ky, kz):
                return G["gk"](kx, ky, kz, self.g1)

            def gv(self, vx, vy, vz):
                return G["gv"](vx, vy, vz, self.g2)

            def ge(self, epsilon):
                return G["ge"](epsilon, self.g1)
        self.Bd, self.Sc = Bd, Sc
        self.abc = [h.pos(x) for x in "abc"]
        self.E, self.Z = h.pos("E"), h.pos("Z")

    def band(self, mu):
        b = self.Bd(*self.abc, self.E, band_params={"t": 1, "Tb": 1, "z1": 0, "A2": 0, "mu": mu}, band_model=Q1D, parallel=False,
                    resolution=[3, 3, 3], number_of_bz=self.Z, march_square=True)
        b.runBandStructure()
        return b


OWN = {"isotropic": ["gamma_0"], "gamma_dos_func": ["gamma_dos_max"], "cos2phi": ["gamma_k", "power"], "sin2phi": ["gamma_k_sin", "power_sin"],
       "cos2phi_coskz": ["gamma_k", "power"]}


def rates(h, models, tag):
    """parameters of the models: those of the package have their own"""
    out = {}
    for m in models:
        for n in OWN.get(m, ["g1", "g2"]):
            out[n] = h.num("2") if n.startswith("power") else h.pos(n + tag)
    return out


class Settings:
    def __init__(self, h, field, temp, models):
        self.h = h
        self.s = dict(Bamp=h.real("Bamp", 5, 45) if field else 0, Bphi=h.real("Bphi", 0, 90), Btheta=h.real("Btheta", 0, 90), N_time=2,
                      T=h.pos("T", 5, 60) if temp else 0, dfdE_cut_percent=h.num("0.25"), N_epsilon=2,
                      rtol=h.pos("rtol", 1e-6, 1e-3), atol=h.pos("atol", 1e-6, 1e-3),
                      scattering_models=list(models), scattering_params=rates(h, models, ""))
        if field:
            h.nonzero(self.s["Bamp"])
        self.mu = h.real("mu")

    def build(self, W):
        kw = dict(self.s)
        kw["scattering_models"], kw["scattering_params"] = list(kw["scattering_models"]), dict(kw["scattering_params"])
        return W.Sc(W.band(self.mu), **kw)


def change(h, S, c, kind, i):
    def put(n, v):
        S.s[n] = v
        setattr(c, n, v)
    if kind == "Bamp":
        v = h.real("Bamp%d" % i, 5, 45)
        h.nonzero(v)
        put("Bamp", v)
    elif kind == "off":
        put("Bamp", 0)
    elif kind in ("Bphi", "Btheta"):
        put(kind, h.real("%s%d" % (kind, i), 0, 90))
    elif kind == "T":
        put("T", h.pos("T%d" % i, 5, 60))
    elif kind == "cold":
        put("T", 0)
    elif kind == "steps":
        put("N_time", S.s["N_time"] + 1)
    elif kind == "samples":
        put("N_epsilon", 3)
    elif kind == "cut":
        put("dfdE_cut_percent", h.num("0.5"))
    elif kind == "rates":
        S.s["scattering_params"] = rates(h, S.s["scattering_models"], "_%d" % i)
        c.scattering_params = dict(S.s["scattering_params"])
    elif kind == "models":
        S.s["scattering_models"] = ["gv"] if S.s["scattering_models"] != ["gv"] else ["gk", "gk"]
        c.scattering_models = list(S.s["scattering_models"])
    elif kind == "tolerance":
        put("rtol", h.pos("rtol%d" % i, 1e-6, 1e-3))
        put("atol", h.pos("atol%d" % i, 1e-6, 1e-3))
    elif kind == "band":
        S.mu = h.real("mu%d" % i)
        c.bandObject["mu"] = S.mu
        c.bandObject.runBandStructure()
    elif kind == "look":        # reading and auxiliary computations in between
        if not isinstance(S.s["Bamp"], int):
            c.omegac_tau_func()
        c.tau_total_max()
        c.dfdE(h.real("e"))
        c.phi_func(*[h.arr([h.real("q" + d)]) for d in "xyz"])


def done(c, S):
    c.runTransport()
    if not isinstance(S.s["Bamp"], int):
        c.omegac_tau_func()


def make(seq, field, temp, models=("gk", "ge"), N=1, first=True):
    def f(h):
        W = World(h, N)
        S = Settings(h, field, temp, models)
        c = S.build(W)
        if first:
            done(c, S)
        for i, kind in enumerate(seq):
            for k in kind.split("+"):
                change(h, S, c, k, i)
            if not first and i + 1 < len(seq):
                continue
            done(c, S)
            fresh = S.build(W)
            done(fresh, S)
            tag = "after " + ", ".join(seq[:i + 1]) + ": "
            hot = not isinstance(S.s["T"], int)
            for n in READ + (HOT if hot else []):
                if n == "omegac_tau_k" and isinstance(S.s["Bamp"], int):
                    continue
                x, y = getattr(c, n), getattr(fresh, n)
                h.same(tag + n + " shape", np.shape(x), np.shape(y))
                h.eq(tag + n, x, y, **({"scale": 1e-30} if n == "alpha" else {}))
            for n in ("kf", "vf", "dkf", "dos_k"):
                h.eq(tag + "surface left behind: " + n, getattr(c.bandObject, n), getattr(fresh.bandObject, n))
    return f


KINDS = ["Bamp", "off", "Bphi", "Btheta", "T", "cold", "steps", "samples", "cut", "rates", "models", "tolerance", "band", "look"]


def cases(tier):
    out = [(k + "_cold", make([k], True, False, N=2)) for k in KINDS if k != "cold"]
    out += [(k + "_hot", make([k], True, True, ("gk",))) for k in ("Bamp", "Btheta", "cold", "steps", "samples", "rates", "band", "off")]
    out += [(k + "_nofield", make([k], False, k != "T")) for k in ("Bamp", "T", "cold", "cut", "samples", "rates", "models", "band", "look")]
    pairs = [("off", "Bamp"), ("cold", "T"), ("T", "cold"), ("rates", "steps"), ("steps", "Bphi"), ("models", "rates"), ("band", "Btheta"),
             ("cut", "T"), ("samples", "cut"), ("tolerance", "look")]
    out += [("_".join(p), make(list(p), i < 8 and i != 1 and i != 2, i in (1, 2, 7, 8), ("gk",) if i == 7 else ("gk", "ge")))
            for i, p in enumerate(pairs)]
    out += [("late_" + "_".join(p), make(list(p), True, False, first=False)) for p in (("steps", "rates"), ("band", "Bphi"), ("off", "models"))]
    out += [("scan", make(["Bphi+Btheta", "Bphi+Btheta", "Btheta+rates"], True, False, ("gk", "gv")))]
    own = ("isotropic", "gamma_dos_func")
    out += [("own_" + k, make([k], True, False, own, N=2)) for k in ("rates", "band", "Btheta", "steps")]
    out += [("own_nofield_" + k, make([k], False, k != "cold", own)) for k in ("band", "rates", "T")]
    out += [("own_phi_" + k, make([k], False, False, ("cos2phi", "gamma_dos_func"))) for k in ("rates", "band")]
    if tier == "thorough":
        out += [("t_%s_%s_%d" % (p, q, t), make([p, q], not t, bool(t), ("gk", "ge"))) for p in KINDS for q in KINDS for t in (0, 1)]
    return out
