"""C08 velocities, densities of states and cyclotron mass on the surface."""
import numpy as np
from .C01 import Q1D
from .common import set_velocity

BOUNDS = ("surfaces of 1-3 points (4 thorough) with arbitrary positions and weights, 1, 3 or 5 kz planes, both discretisation "
          "routes, arbitrary (uninterpreted) band velocity, all cells, all positive zone counts, energies other than zero, "
          "two successive discretisations")
OUTSIDE = "points of exactly zero speed (the density of states diverges there)"
ASSUMPTIONS = ["the discretisers (C06, C07) return arbitrary points and weights", "band velocity uninterpreted"]


def harness(square, N, nz, runs=1, via_run=False, at_zero=False):
    def f(h):
        bs = h.load("bandstructure")
        a, b, c = h.pos("a"), h.pos("b"), h.pos("c")
        Z = h.pos("nbz")
        band = bs.BandStructure(a, b, c, h.pos("E"), band_params={"t": 1, "Tb": 1, "z1": 0, "A2": 0, "mu": 0}, band_model=Q1D,
                                parallel=False, resolution=[3, 3, nz], number_of_bz=Z, march_square=square)
        V = [h.uf("v" + x) for x in "xyz"]
        set_velocity(band, V)
        data = {}

        def march(epsilon=0):
            data["eps"].append(epsilon)
            if square:
                band.dks, band.dkz = data["dks"], data["dks"] * 0 + 1
            return data["kf"], data["dkf"]

        def wrong(epsilon=0):
            raise AssertionError("the other discretiser was used")
        band.marching_square = march if square else wrong
        band.marching_cube = wrong if square else march
        if via_run:
            band.doping = lambda *x, **k: 0
        for r in range(runs):
            data.update(eps=[], kf=h.reals("kf%d" % r, (3, N)), dkf=h.reals("dkf%d" % r, N, pos=True),
                        dks=h.reals("dks%d" % r, N, pos=True))
            kf = np.array(data["kf"], copy=True) if not h.sym else h.arr(data["kf"])
            e0 = 0 if at_zero else h.real("eps%d" % r)
            vs = [[V[i](kf[0, p], kf[1, p], kf[2, p]) for p in range(N)] for i in range(3)]
            for p in range(N):
                h.assume(vs[0][p] ** 2 + vs[1][p] ** 2 > 0)
            if via_run:
                band.runBandStructure(epsilon=e0)
            elif at_zero:
                band.discretize_fermi_surface()
            else:
                band.discretize_fermi_surface(e0)
            h.eq("epsilon", h.arr(data["eps"]), h.arr([e0]), scale=1.0)
            h.eq("kf", band.kf, kf)
            h.eq("dkf", band.dkf, data["dkf"])
            h.eq("vf", band.vf, h.arr(vs))
            hbar = h.const("hbar")
            sp = [h.np.sqrt(vs[0][p] ** 2 + vs[1][p] ** 2 + vs[2][p] ** 2) for p in range(N)]
            pp = [h.np.sqrt(vs[0][p] ** 2 + vs[1][p] ** 2) for p in range(N)]
            h.eq("dos_k", band.dos_k, h.arr([1 / (hbar * s) for s in sp]))
            band.dos_epsilon_func()
            tot = 0
            for p in range(N):
                tot = tot + data["dkf"][p] * 10 ** 20 / (hbar * sp[p])
            h.eq("dos_epsilon", band.dos_epsilon, 2 / (2 * h.pi) ** 3 * tot / Z)
            if square:
                band.mass_func()
                m = 0
                for p in range(N):
                    m = m + data["dks"][p] * 10 ** 10 / pp[p]
                h.eq("mass", band.mass, hbar / (2 * h.pi) * m / nz / h.const("m_e"))
    return f


def cases(tier):
    out = []
    for sq in (True, False):
        nm = "square" if sq else "cube"
        for N, nz in ((1, 1), (2, 3), (3, 5)):
            out.append(("%s_%d_%d" % (nm, N, nz), harness(sq, N, nz)))
        out.append((nm + "_zero", harness(sq, 2, 3, at_zero=True)))
        out.append((nm + "_run", harness(sq, 2, 3, via_run=True)))
        out.append((nm + "_twice", harness(sq, 2, 3, runs=2)))
        if tier == "thorough":
            out.append((nm + "_4", harness(sq, 4, 7)))
            out.append((nm + "_thrice", harness(sq, 2, 3, runs=3, via_run=True)))
    return out
