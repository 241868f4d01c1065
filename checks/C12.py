"""C12 magnetic-field vector."""
import itertools
import numpy as np
from .common import Band

BOUNDS = ("every construction (default or given angles) followed by every sequence of up to 3 edits (4 thorough) of amplitude, azimuth, "
          "polar angle, temperature and scattering parameters, direct assignments of the vector included; all real values")
OUTSIDE = ""
ASSUMPTIONS = []


def B_of(h, v):
    r = h.pi / 180
    s, c = h.np.sin, h.np.cos
    return h.arr([v["Bamp"] * s(v["Btheta"] * r) * c(v["Bphi"] * r), v["Bamp"] * s(v["Btheta"] * r) * s(v["Bphi"] * r),
                  v["Bamp"] * c(v["Btheta"] * r)])


def mk(h, C, bare, given=("Bphi", "Btheta"), **k):
    v = {"Bamp": h.real("B0", -50, 50), "Bphi": 0, "Btheta": 0}
    for g in given:
        v[g] = h.real(g + "0", -400, 400)
    cond = C.Conductivity(bare, v["Bamp"], scattering_models=["isotropic"], scattering_params={"gamma_0": 1},
                          **{g: v[g] for g in given}, **k)
    return cond, v


def sequences(length, ops, first=None):
    def f(h):
        C = h.load("conductivity")
        bare = Band(h, 1).bare()
        for seq in itertools.product(ops, repeat=length):
            if first and seq[0] != first:
                continue
            cond, v = mk(h, C, bare)
            for i, op in enumerate(seq):
                if op in v:
                    v[op] = h.real("%s_%d" % (op, i), -400, 400)
                    setattr(cond, op, v[op])
                elif op == "T":
                    cond.T = 0
                elif op == "gamma":
                    cond.scattering_params = {"gamma_0": 2}
                elif op == "B_vector":
                    try:
                        cond.B_vector = h.reals("bad", 3)
                    except AttributeError:
                        pass
                for n in v:
                    h.eq(n, getattr(cond, n), v[n])
                h.eq("B_vector", cond.B_vector, B_of(h, v), scale=1e-3)
    return f


def construct(h):
    C = h.load("conductivity")
    bare = Band(h, 1).bare()
    for given in ((), ("Bphi",), ("Btheta",), ("Bphi", "Btheta")):
        cond, v = mk(h, C, bare, given)
        h.eq("B_vector", cond.B_vector, B_of(h, v), scale=1e-3)
        h.same("three components", cond.B_vector.shape, (3,))
    # two objects are independent
    c1, v1 = mk(h, C, bare)
    c2, v2 = mk(h, C, bare)
    c1.Bamp = h.real("other")
    c1.Btheta = h.real("othert")
    h.eq("independent", c2.B_vector, B_of(h, v2), scale=1e-3)


def used(h):
    """the field used to move carriers is the current one"""
    from .common import Integrator
    ig = Integrator(h)
    C = h.load("conductivity", ig.stubs())
    B = Band(h, 1)
    cond, v = mk(h, C, B.bare())
    cond.time_array = h.arr([0, h.pos("t1")])
    for i, op in enumerate(("Bphi", "Bamp", "Btheta", "Bphi")):
        v[op] = h.real("%s_%d" % (op, i), 1, 50)
        h.nonzero(v["Bamp"])
        setattr(cond, op, v[op])
        cond.solve_movement()
        k = h.reals("state%d" % i, 3)
        vel = [V(*k) for V in B.V]
        b = B_of(h, v)
        f = h.const("q_e") / h.const("hbar") * h.q(1, 10 ** 22)
        h.eq("force", ig.rhs(-1, k), h.arr([f * (vel[1] * b[2] - vel[2] * b[1]), f * (vel[2] * b[0] - vel[0] * b[2]),
                                            f * (vel[0] * b[1] - vel[1] * b[0])]))


def cases(tier):
    ops = ["Bamp", "Bphi", "Btheta", "B_vector"]
    out = [("construct", construct), ("used", used), ("edits_1", sequences(1, ops + ["T", "gamma"])),
           ("edits_2", sequences(2, ops + ["T"])), ("edits_3", sequences(3, ops))]
    if tier == "thorough":
        out += [("edits_4_" + o, sequences(4, ops + ["T"], o)) for o in ops]
    return out
