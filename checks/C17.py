"""C17 finite-temperature window and coefficients."""
import itertools
import numpy as np
from .common import Band
from .pipe import Pipe

BOUNDS = ("2 to 6 energies, all temperatures, all cut-off fractions in (0,1); every sequence of up to 3 edits (4 thorough) of temperature "
          "(zero included), sample count and cut-off; complete runs over 2 to 4 energies with 1-2 carriers, over 20 and 60 energies with one")
OUTSIDE = "a single energy sample (no spacing is defined); rounding of the window end points"
ASSUMPTIONS = ["the ODE solver returns an arbitrary function of each carrier's initial state and of the time",
               "no carrier is exactly at rest"]


def kT(h, T):
    return h.const("k_B") * T / h.const("q_e") * 1000


def mdf(h, T, e):
    return 1 / (4 * kT(h, T) * h.np.cosh(e / (2 * kT(h, T))) ** 2)


def cut(h, name):
    c = h.pos(name, 0.001, 0.6)
    h.assume(c < 1)
    return c


def window(h, c, T, n, r):
    e = c.epsilon_array
    h.same("samples", tuple(e.shape), (n,))
    lo, hi = e[0], e[n - 1]
    h.eq("symmetric", lo, -hi)
    h.le("ascending", 0, hi)
    h.eq("evenly sampled", e, h.arr([lo + (hi - lo) * h.q(i, n - 1) for i in range(n)]), scale=1e-6)
    h.eq("ends at the cut", mdf(h, T, hi), r * mdf(h, T, 0))
    h.eq("derivative", -c.dfdE(hi), r / (4 * kT(h, T)))


def make(h, T, n, r):
    C = h.load("conductivity")
    b = Band(h, 1).bare()
    return C.Conductivity(b, 0, T=T, dfdE_cut_percent=r, N_epsilon=n, scattering_models=["isotropic"], scattering_params={"gamma_0": 1})


def construct(h):
    T, r = h.pos("T", 5, 60), cut(h, "r")
    for n in (2, 3, 4, 6):
        window(h, make(h, T, n, r), T, n, r)


def defaults(h):
    T = h.pos("T", 5, 60)
    C = h.load("conductivity")
    b = Band(h, 1).bare()
    c = C.Conductivity(b, 0, T=T, scattering_models=["isotropic"], scattering_params={"gamma_0": 1})
    window(h, c, T, 20, h.num("0.001"))


def derivative(h):
    T, r, e = h.pos("T", 5, 60), cut(h, "r"), h.real("e", -20, 20)
    c = make(h, T, 3, r)
    h.eq("-dfdE", -c.dfdE(e), mdf(h, T, e))
    ee = h.reals("ee", 3)
    h.eq("-dfdE array", -c.dfdE(ee), h.arr([mdf(h, T, x) for x in ee]))
    h.eq("cut-off of a level", mdf(h, T, c.energyCutOff(r * mdf(h, T, 0))), r * mdf(h, T, 0))


def edits(length, first=None):
    ops = ("T", "cold", "N", "cut")

    def f(h):
        for seq in itertools.product(ops, repeat=length):
            if first and seq[0] != first:
                continue
            for T0 in (0, h.pos("T0", 5, 60)):
                T, n, r = T0, 3, cut(h, "r0")
                c = make(h, T, n, r)
                for i, op in enumerate(seq):
                    if op == "T":
                        c.T = T = h.pos("T_%d" % i, 5, 60)
                    elif op == "cold":
                        c.T = T = 0
                    elif op == "N":
                        c.N_epsilon = n = 2 + (n + i) % 4
                    else:
                        c.dfdE_cut_percent = r = cut(h, "r_%d" % i)
                    if not (isinstance(T, int) and T == 0):
                        window(h, c, T, n, r)
                    h.eq("T", c.T, T)
                    h.eq("cut", c.dfdE_cut_percent, r)
                    h.same("N", c.N_epsilon, n)
    return f


def coefficients(N, n, field, models=("gk",), temps=(5, 60)):
    def f(h):
        P = Pipe(h, N, 2, temp=True, neps=n, field=field, models=models, temps=temps)
        c = P.cond
        for e in P.energies() + [0]:
            P.speeds(e)
        c.runTransport()
        s, a, b = P.window_sums(P.energies())
        h.eq("sigma", c.sigma, s)
        h.eq("alpha", c.alpha, a, scale=1e-30)
        h.eq("beta", c.beta, b)
    return f


def rerun(h):
    """a run after each kind of edit uses the new window"""
    P = Pipe(h, 1, 2, temp=True, neps=2, field=False, models=("ge",))
    c = P.cond
    c.runTransport()
    for i, op in enumerate(("T", "N", "cut")):
        if op == "T":
            c.T = P.T = h.pos("Tb", 5, 60)
        elif op == "N":
            c.N_epsilon = 3
        else:
            c.dfdE_cut_percent = h.num("0.125")
        for e in P.energies() + [0]:
            P.speeds(e)
        c.runTransport()
        s, a, b = P.window_sums(P.energies())
        h.eq("sigma", c.sigma, s)
        h.eq("alpha", c.alpha, a, scale=1e-30)
        h.eq("beta", c.beta, b)


def cases(tier):
    out = [("construct", construct), ("defaults", defaults), ("derivative", derivative)]
    out += [("edits_%d" % n, edits(n)) for n in (1, 2)] + [("edits_3_" + o, edits(3, o)) for o in ("T", "cold", "N", "cut")]
    out += [("run_%d_%d_%d" % (N, n, f), coefficients(N, n, f, m)) for N, n, f, m in
            ((1, 2, True, ("gk",)), (1, 4, False, ("gk", "ge")), (1, 3, True, ("ge",)), (2, 2, False, ("gk",)))]
    out += [("rerun", rerun), ("run_cold", coefficients(1, 3, False, ("ge",), (0.02, 0.2))), ("run_many", coefficients(1, 20, True, ("ge",))), ("run_most", coefficients(1, 60, False, ("ge",)))]
    if tier == "thorough":
        out += [("edits_4_" + o, edits(4, o)) for o in ("T", "cold", "N", "cut")]
        out += [("run_2_3", coefficients(2, 3, True)), ("run_1_6", coefficients(1, 6, True, ("gk", "gv", "ge")))]
    return out
