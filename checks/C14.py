"""C14 trajectories."""
import numpy as np
from .common import Integrator
from .pipe import Pipe

BOUNDS = ("1-3 carriers, 2-4 time steps (5 carriers x 6 steps thorough), all fields, tolerances and time grids; field switched on and "
          "off between runs; surfaces replaced between runs; zero and finite temperature")
OUTSIDE = "accuracy of the ODE solver (C31)"
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state and of the time, and its initial state at "
               "the first time"]


def check(h, P, tag="", e=0, call=-1, states=True):
    c = P.cond
    N, tr = P.N, P.traj(e)
    if P.field:
        q = P.ig.calls[call]
        k = P.surface(e)
        h.eq(tag + "initial state", h.arr(list(q["y0"])), h.arr([k[d][p] for d in range(3) for p in range(N)]))
        h.eq(tag + "time grid", h.arr(q["t"]), h.arr(P.times()), scale=1e-3)
        h.eq(tag + "rtol", q["rtol"], P.rtol)
        h.eq(tag + "atol", q["atol"], P.atol)
    if states:
        nt = P.nt if P.field else 1
        for name, got, w in (("k", c.kft, 0), ("v", c.vft, 1)):
            h.same(tag + name + " shape", tuple(got.shape), (3, N, nt))
            h.eq(tag + name, got, h.arr([[[tr[p][i][w][d] for i in range(nt)] for p in range(N)] for d in range(3)]))


def harness(N, nt, field):
    def f(h):
        P = Pipe(h, N, nt, field=field)
        P.cond.runTransport()
        h.same("integrations", len(P.ig.calls), 1 if field else 0)
        check(h, P)
    return f


def direct(N, nt, field):
    """solve_movement on an arbitrary time grid"""
    def f(h):
        P = Pipe(h, N, nt, field=field)
        ts = [0]
        for i in range(1, nt):
            ts.append(ts[-1] + h.pos("dt%d" % i))
        P.times = lambda: ts
        P.cond.time_array = h.arr(ts)
        P.cond.solve_movement()
        check(h, P)
    return f


def toggle(h):
    P = Pipe(h, 2, 3)
    P.cond.runTransport()
    check(h, P)
    P.cond.Bamp = 0
    P.field = False
    P.cond.runTransport()
    check(h, P, "off ")
    P.cond.Bamp = P.v["Bamp"]
    P.cond.Btheta = h.real("other")
    P.field = True
    P.rtol, P.atol = h.pos("rtol2", 1e-6, 1e-3), h.pos("atol2", 1e-6, 1e-3)
    P.cond.rtol, P.cond.atol = P.rtol, P.atol
    P.cond.runTransport()
    check(h, P, "on ")
    P.cond.N_time = P.nt = 2
    P.cond.runTransport()
    check(h, P, "steps ")


def thermal(h):
    P = Pipe(h, 1, 2, temp=True, neps=3)
    P.cond.runTransport()
    h.same("integrations", len(P.ig.calls), 3)
    for i, e in enumerate(P.energies()):
        check(h, P, "energy ", e, i, states=False)


def cases(tier):
    out = []
    for N, nt in ((1, 2), (1, 4), (2, 3), (3, 2)):
        out.append(("on_%d_%d" % (N, nt), harness(N, nt, True)))
    for N in (1, 2, 3):
        out.append(("off_%d" % N, harness(N, 2, False)))
    for N, nt in ((1, 3), (2, 2), (3, 4)):
        out.append(("direct_on_%d_%d" % (N, nt), direct(N, nt, True)))
        out.append(("direct_off_%d_%d" % (N, nt), direct(N, nt, False)))
    out += [("toggle", toggle), ("thermal", thermal)]
    if tier == "thorough":
        out += [("direct_on_5_6", direct(5, 6, True)), ("on_3_5", harness(3, 5, True)), ("direct_off_6", direct(6, 2, False))]
    return out
