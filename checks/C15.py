"""C15 survival exponent."""
import numpy as np
from .pipe import Pipe

BOUNDS = ("1-3 carriers, 1-4 time steps (5 carriers x 6 steps thorough); every combination of models depending on momentum, velocity and "
          "energy; field on, off and toggled; zero and finite temperature; arbitrary rates, velocities, orbits and time grids")
OUTSIDE = ""
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state and of the time"]
ALL = ("gk", "gv", "ge")


def check(h, P, e=0, tag="", lev=0, got=None):
    """the exponent, from the trajectories of level lev and the energy e"""
    c = P.cond
    tr = P.traj(lev)
    got = c.t_o_tau if got is None else got
    if P.field:
        h.same(tag + "shape", tuple(got.shape), (P.N, P.nt))
        h.eq(tag + "exponent", got, h.arr(P.exponent(tr, e)), scale=1e-6)
        h.eq(tag + "exactly zero at t=0", [got[p, 0] for p in range(P.N)], [0] * P.N)
        for p in range(P.N):
            for i in range(1, P.nt):
                h.le(tag + "non-decreasing", got[p, i - 1], got[p, i])
    else:
        h.same(tag + "shape", tuple(got.shape), (P.N,))
        h.eq(tag + "rate at start", got, h.arr([P.gamma(tr[p][0][0], tr[p][0][1], e) for p in range(P.N)]))


def run(N, nt, models, field):
    def f(h):
        P = Pipe(h, N, nt, models=models, field=field)
        P.cond.runTransport()
        check(h, P)
        if field:
            tr = P.traj()
            h.eq("lifetime", P.cond.tau_tot, h.arr([[1 / P.gamma(k, v, 0) for k, v in row] for row in tr]))
    return f


def direct(N, nt, models, field):
    """arbitrary trajectories, velocities and time steps; arbitrary energy"""
    def f(h):
        P = Pipe(h, N, nt, models=models, field=field)
        c = P.cond
        K, V = h.reals("K", (3, N, nt)), h.reals("V", (3, N, nt))
        dt = h.pos("dt")
        c.dtime = dt
        c.time_array = h.arr([dt * i for i in range(nt)])
        c.dtime_array = h.arr([0] + [dt] * (nt - 1))
        c.kft, c.vft = (K, V) if field else (K[:, :, :1], V[:, :, :1])
        P.traj = lambda e=0: [[([K[d, p, i] for d in range(3)], [V[d, p, i] for d in range(3)]) for i in range(nt)] for p in range(N)]
        P.dt = lambda: dt
        e = h.real("eps", -30, 30)
        c.t_o_tau_func(e)
        check(h, P, e)
        c.t_o_tau_func()
        check(h, P, 0, "default ")
    return f


def thermal(models, field):
    def f(h):
        P = Pipe(h, 2 if not field else 1, 2, temp=True, neps=3, models=models, field=field)
        c = P.cond
        seen = []
        inner = c.t_o_tau_func
        c.runTransport()
        for e in P.energies():
            check(h, P, e, "energy ", e, c.t_o_tau_epsilon[e])
    return f


def toggle(h):
    P = Pipe(h, 2, 2, models=("gk", "gv"))
    P.cond.runTransport()
    check(h, P)
    P.cond.Bamp, P.field = 0, False
    P.cond.runTransport()
    check(h, P, tag="off ")
    P.cond.Bamp, P.field = P.v["Bamp"], True
    P.g["g1"] = h.pos("g1b")
    P.cond.scattering_params = dict(P.g)
    P.cond.N_time = P.nt = 3
    P.cond.runTransport()
    check(h, P, tag="on ")


def cases(tier):
    out = []
    for m in (("gk",), ("gv",), ("ge",), ("gk", "gv"), ALL):
        t = "".join(x[1] for x in m)
        out += [("run_on_" + t, run(2, 3, m, True)), ("run_off_" + t, run(2, 2, m, False)),
                ("direct_on_" + t, direct(2, 3, m, True)), ("direct_off_" + t, direct(2, 3, m, False))]
    out += [("direct_1_1", direct(1, 1, ALL, True)), ("run_1_4", run(1, 4, ALL, True)), ("run_3_2", run(3, 2, ("gk",), True)),
            ("direct_3_4", direct(3, 4, ("gk", "ge"), True)), ("thermal_on", thermal(ALL, True)), ("thermal_off", thermal(ALL, False)),
            ("toggle", toggle)]
    if tier == "thorough":
        out += [("direct_5_6", direct(5, 6, ALL, True)), ("direct_off_6", direct(6, 1, ALL, False)), ("run_2_5", run(2, 5, ALL, True))]
    return out
