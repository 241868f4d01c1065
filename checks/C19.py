"""C19 integration time window."""
import itertools
import numpy as np
from .pipe import Pipe

BOUNDS = ("1-3 carriers, 1 to 6 steps for every value of the window, and 500 steps for the count under floating-point rounding; every "
          "sequence of up to 3 actions (4 thorough) among run, change of steps, of scattering, of temperature; zero and finite temperature; "
          "field on and off")
OUTSIDE = "rounding of the values of the grid (its number of points is covered)"
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state and of the time"]


def mx(xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if x > m else m
    return m


def mn(xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if x < m else m
    return m


def grid(h, c, tmax, n, tag=""):
    h.eq(tag + "window", c.time_max, tmax)
    h.eq(tag + "step", c.dtime, tmax / n)
    h.same(tag + "number of steps", tuple(c.time_array.shape), (n,))
    h.eq(tag + "times", c.time_array, h.arr([tmax * h.q(i, n) for i in range(n)]), scale=1e-3)
    h.same(tag + "number of weights", tuple(c.dtime_array.shape), (n,))
    h.eq(tag + "weights", c.dtime_array, h.arr([0] + [tmax / n] * (n - 1)), scale=1e-3)


def extremes(h, P, tag=""):
    t = P.taus()
    h.eq(tag + "largest rate", P.cond.gamma_tot_max, 1 / mn(t))
    h.eq(tag + "smallest rate", P.cond.gamma_tot_min, 1 / mx(t))


def run(N, nt, field, models=("gk",)):
    def f(h):
        P = Pipe(h, N, nt, field=field, models=models)
        P.cond.runTransport()
        grid(h, P.cond, 8 * mx(P.taus()), nt)
        extremes(h, P)
    return f


def hot(field, models):
    def f(h):
        P = Pipe(h, 2, 2, temp=True, neps=2, field=field, models=models)
        for i in range(2):
            P.cond.runTransport()
            grid(h, P.cond, 8 * mx(P.taus()), 2, "run %d " % i)
            extremes(h, P, "run %d " % i)
    return f


def actions(length, first=None):
    ops = ("run", "steps", "rate", "switch")

    def f(h):
        for seq in itertools.product(ops, repeat=length):
            if first and seq[0] != first:
                continue
            P = Pipe(h, 2 if length < 3 else 1, 3, field=False)
            c, n, ran = P.cond, 3, None
            for i, op in enumerate(seq + ("run",)):
                if op == "run":
                    c.runTransport()
                    ran = 8 * mx(P.taus())
                    extremes(h, P)
                elif op == "steps":
                    c.N_time = n = 2 + (n + i) % 4
                    P.nt = n
                elif op == "rate":
                    P.g["g1"] = h.pos("g_%d" % i)
                    c.scattering_params = dict(P.g)
                else:
                    c.Bamp = P.v["Bamp"] = 0 if P.field else h.pos("Bamp_%d" % i, 5, 45)
                    P.field = not P.field
                h.same("N_time", c.N_time, n)
                if ran is not None:
                    grid(h, c, ran, n)
    return f


def count(when):
    """the number of points under floating-point rounding"""
    def f(h):
        n = 500
        for tag, models in (("a", ("gk",)), ("b", ("gv",))):
            P = Pipe(h, 1, n if when == "construction" else 7, field=False, models=models, tag=tag)
            c = P.cond
            h.rounding()
            if when == "before":
                c.N_time = n
            c.runTransport()
            if when == "after":
                c.N_time = n
            h.rounding(False)
            h.same("number of steps", tuple(c.time_array.shape), (n,))
            h.same("number of weights", tuple(c.dtime_array.shape), (n,))
            h.true("within the window", c.time_array[n - 1] < c.time_max)
            h.eq("last step", c.time_array[n - 1] + c.dtime, c.time_max)
    return f


def float_steps(h):
    """a number of steps given as a float with an integer value"""
    P = Pipe(h, 1, 4.0, field=False)
    P.cond.runTransport()
    grid(h, P.cond, 8 * mx(P.taus()), 4)


def cases(tier):
    out = [("on_1_1", run(1, 1, True)), ("on_2_4", run(2, 4, True, ("gk", "gv"))), ("on_3_3", run(3, 3, True)), ("off_2_6", run(2, 6, False)),
           ("off_3_2", run(3, 2, False, ("gv", "ge"))), ("hot_on", hot(True, ("gk", "ge"))), ("hot_off", hot(False, ("gv",)))]
    out += [("actions_%d" % n, actions(n)) for n in (1, 2)] + [("actions_3_" + o, actions(3, o)) for o in ("run", "steps", "rate", "switch")]
    out += [("count_" + w, count(w), {"tries": 60}) for w in ("construction", "before", "after")] + [("float_steps", float_steps)]
    if tier == "thorough":
        out += [("actions_4_" + o, actions(4, o)) for o in ("run", "steps", "rate", "switch")] + [("on_4_5", run(4, 5, True))]
    return out
