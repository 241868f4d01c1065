"""C16 zero-temperature conductivity."""
import numpy as np
from .pipe import Pipe

BOUNDS = ("1-3 carriers, 1-4 time steps (4 carriers x 5 steps thorough), any number of Brillouin zones, field on, off and toggled, any "
          "combination of scattering models, arbitrary surfaces, velocities, orbits and rates; a complete run at T = 0, and the Chambers "
          "sum alone on arbitrary trajectories and exponents")
OUTSIDE = "convergence of the discretised integral"
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state and of the time",
               "no carrier is exactly at rest (its density of states is infinite)"]


def form(h, s, x):
    t = 0
    for i in range(3):
        for j in range(3):
            t = t + x[i] * s[i, j] * x[j]
    return t


def run(N, nt, models=("gk",), field=True):
    def f(h):
        P = Pipe(h, N, nt, models=models, field=field)
        P.speeds()
        P.cond.runTransport()
        s = P.cond.sigma
        h.same("shape", tuple(s.shape), (3, 3))
        want = P.sigma()
        h.eq("sigma", s, want)
        if not field:
            for i, j in ((0, 1), (0, 2), (1, 2)):
                h.eq("symmetric", s[i, j], s[j, i], scale=1e-4 * abs(s).max() if not h.sym else None)
            if N == 1:
                h.le("non-negative", 0, form(h, s, h.reals("x", 3)))
    return f


def nonneg(N):
    """quadratic form of the relaxation-time tensor, carriers with arbitrary velocities"""
    def f(h):
        P = Pipe(h, N, 2, field=False)
        c, b = P.cond, P.band
        V = h.reals("V", (3, N, 1))
        w, d, t = h.reals("w", N, pos=True), h.reals("d", N, pos=True), h.reals("t", N, pos=True)
        s = c.sigma_epsilon(d, w, h.reals("K", (3, N, 1)), V, t)
        x = h.reals("x", 3)
        got = form(h, s, x)
        want = 0
        for p in range(N):
            want = want + w[p] * d[p] / t[p] * (V[0, p, 0] * x[0] + V[1, p, 0] * x[1] + V[2, p, 0] * x[2]) ** 2
        want = want * P.units() / P.B.Z
        # a sum of squares with positive weights
        h.eq("sum of squares", got, want)
        h.eq("symmetric", s, s.T)
        if N == 1:
            h.le("non-negative", 0, got)
    return f


def direct(N, nt, field=True):
    """the Chambers sum on arbitrary trajectories"""
    def f(h):
        P = Pipe(h, N, nt, field=field)
        c = P.cond
        n = nt if field else 1
        V, K = h.reals("V", (3, N, n)), h.reals("K", (3, N, n))
        w, d = h.reals("w", N), h.reals("d", N)
        c.dtime = dt = h.pos("dt")
        ex = h.reals("ex", (N, nt), pos=True) if field else h.reals("ex", N, pos=True)
        s = c.sigma_epsilon(d, w, K, V, ex)
        out = [[0] * 3 for _ in range(3)]
        for p in range(N):
            for i in range(3):
                for j in range(3):
                    if field:
                        q = sum(V[j, p, k] * h.np.exp(-ex[p, k]) * dt for k in range(nt))
                    else:
                        q = V[j, p, 0] / ex[p]
                    out[i][j] = out[i][j] + w[p] * d[p] * V[i, p, 0] * q
        u = P.units() / P.B.Z
        h.eq("sigma", s, h.arr([[u * x for x in r] for r in out]))
    return f


def toggle(h):
    P = Pipe(h, 2, 2, models=("gk",))
    P.speeds()
    P.cond.runTransport()
    h.eq("on", P.cond.sigma, P.sigma())
    P.cond.Bamp, P.field = 0, False
    P.cond.runTransport()
    h.eq("off", P.cond.sigma, P.sigma())
    P.cond.Bamp, P.field = P.v["Bamp"], True
    P.g["g1"] = h.pos("g1b")
    P.cond.scattering_params = dict(P.g)
    P.cond.runTransport()
    h.eq("on again", P.cond.sigma, P.sigma())


def cases(tier):
    out = []
    for N, nt, m in ((1, 1, ("gk",)), (1, 3, ("gk", "gv", "ge")), (2, 2, ("gk", "gv")), (2, 3, ("gk",)), (3, 2, ("ge",))):
        out.append(("on_%d_%d_%d" % (N, nt, len(m)), run(N, nt, m, True)))
    for N, m in ((1, ("gk",)), (2, ("gk", "gv", "ge")), (3, ("gk",))):
        out.append(("off_%d_%d" % (N, len(m)), run(N, 2, m, False)))
    out += [("direct_%d_%d" % x, direct(*x)) for x in ((1, 4), (2, 3), (3, 3))]
    out += [("direct_off_%d" % n, direct(n, 1, False)) for n in (1, 3)]
    out += [("form_%d" % n, nonneg(n)) for n in (1, 2, 3)] + [("toggle", toggle)]
    if tier == "thorough":
        out += [("direct_4_5", direct(4, 5)), ("on_3_4", run(3, 4, ("gk", "gv"), True)), ("form_5", nonneg(5)),
                ("on_4_2", run(4, 2, ("gk",), True))]
    return out
