"""C13 equation of motion."""
import numpy as np
from .common import Band, Integrator
from .C12 import B_of, mk

BOUNDS = "1 to 3 carriers (5 thorough) at arbitrary states, all fields and angles, arbitrary (uninterpreted) band velocity, any time"
OUTSIDE = "the numerical integration itself (C31)"
ASSUMPTIONS = ["the equation is observed through the function handed to the ODE solver"]


def setup(h, N, real=False):
    ig = Integrator(h)
    C = h.load("conductivity", ig.stubs())
    B = Band(h, N)
    cond, v = mk(h, C, B.bare())
    h.nonzero(v["Bamp"])
    cond.time_array = h.arr([0, h.pos("t1"), h.pos("t1") * 2])
    cond.solve_movement()
    h.same("one integration", len(ig.calls), 1)
    return ig, B, cond, v


def vel(h, B, k, N):
    return [[V(k[p], k[N + p], k[2 * N + p]) for p in range(N)] for V in B.V]


def lorentz(h, v, b, N):
    f = h.const("q_e") / h.const("hbar") * h.q(1, 10 ** 22)
    return ([f * (v[1][p] * b[2] - v[2][p] * b[1]) for p in range(N)] + [f * (v[2][p] * b[0] - v[0][p] * b[2]) for p in range(N)]
            + [f * (v[0][p] * b[1] - v[1][p] * b[0]) for p in range(N)])


def force(N):
    def f(h):
        ig, B, cond, v = setup(h, N)
        b = B_of(h, v)
        for r in range(2):
            k = h.reals("state%d" % r, 3 * N)
            V = vel(h, B, k, N)
            got = ig.rhs(0, k, h.real("time%d" % r))
            want = lorentz(h, V, b, N)
            h.eq("force", got, h.arr(want))
            for p in range(N):
                d = [got[p], got[N + p], got[2 * N + p]]
                big = abs(d[0] * V[0][p]) + abs(d[1] * V[1][p]) + abs(d[2] * V[2][p]) if not h.sym else None
                h.eq("perpendicular to v", d[0] * V[0][p] + d[1] * V[1][p] + d[2] * V[2][p], 0, scale=big)
                big = abs(d[0] * b[0]) + abs(d[1] * b[1]) + abs(d[2] * b[2]) if not h.sym else None
                h.eq("perpendicular to B", d[0] * b[0] + d[1] * b[1] + d[2] * b[2], 0, scale=big)
        # the same state twice: no memory
        k = h.reals("state0", 3 * N)
        h.eq("force again", ig.rhs(0, k, 0), h.arr(lorentz(h, vel(h, B, k, N), b, N)))
    return f


def carriers_independent(h):
    """moving one carrier does not change the rate of another"""
    N = 3
    ig, B, cond, v = setup(h, N)
    k = h.reals("state", 3 * N)
    k2 = list(k)
    for c in range(3):
        k2[c * N + 1] = h.real("moved%d" % c)
    r1, r2 = ig.rhs(0, k), ig.rhs(0, k2)
    for c in range(3):
        for p in (0, 2):
            h.eq("other carriers", r2[c * N + p], r1[c * N + p])


def no_field(h):
    """no field, no motion"""
    ig, B, cond, v = setup(h, 2)
    cond.Bamp = 0
    h.eq("no field", ig.rhs(0, h.reals("state", 6)), h.arr([0] * 6), scale=1e-12)


def real_band(h):
    """the real velocity of a real dispersion at the current momentum"""
    from .C01 import Q1D
    ig = Integrator(h)
    C = h.load("conductivity", ig.stubs())
    B = Band(h, 2, uf=False, band_params={"t": h.real("p_t"), "Tb": h.real("p_Tb"), "z1": h.real("p_z1"), "A2": h.real("p_A2"),
                                         "mu": h.real("p_mu")})
    cond, v = mk(h, C, B.bare())
    h.nonzero(v["Bamp"])
    cond.time_array = h.arr([0, h.pos("t1")])
    cond.solve_movement()
    k = h.reals("state", 6)
    V = B.band.velocity_func(h.arr([k[0], k[1]]), h.arr([k[2], k[3]]), h.arr([k[4], k[5]]))
    h.eq("force", ig.rhs(0, k), h.arr(lorentz(h, [list(x) for x in V], B_of(h, v), 2)))


def cases(tier):
    out = [("force_1", force(1)), ("force_2", force(2)), ("force_3", force(3)), ("independent", carriers_independent),
           ("no_field", no_field), ("real_band", real_band)]
    if tier == "thorough":
        out += [("force_5", force(5))]
    return out
