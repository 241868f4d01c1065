"""C11 density-of-states scattering rate."""
import numpy as np

BOUNDS = ("surfaces of 1-3 and 5 points (4 thorough) with arbitrary densities of states, 1-3 carriers of arbitrary velocity, one- and "
          "two-dimensional arrays of carriers (trajectories) with any number of them, successive evaluations, edits of the surface")
OUTSIDE = "carriers of exactly zero speed"
ASSUMPTIONS = ["bandObject.dos_k is the local density of states of the surface (C08)"]

# exact speeds for some of the carriers keep the square roots rational
DIRS = [(2, 3, 6, 7), (-1, 2, 2, 3), (4, -4, 7, 9), (6, 6, -7, 11)]


class Cell:
    pass


def carriers(h, tag, n, shape, exact):
    V, S = [[], [], []], []
    for i in range(n):
        if exact:
            s = h.pos("s%s%d" % (tag, i))
            x, y, z, r = DIRS[i % 4]
            v = [x * s, y * s, z * s]
            sp = r * s
        else:
            v = [h.real("%s%s%d" % (d, tag, i)) for d in ("vx", "vy", "vz")]
            h.assume(v[0] ** 2 + v[1] ** 2 + v[2] ** 2 > 0)
            sp = h.np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
        for d in range(3):
            V[d].append(v[d])
        S.append(sp)
    return [h.arr(np.array(v, dtype=object).reshape(shape)) for v in V], S


def rate(h, g, S, dos, shape):
    m = dos[0]
    for d in dos[1:]:
        m = d if d > m else m
    return h.arr(np.array([g / (h.const("hbar") * s) / m for s in S], dtype=object).reshape(shape))


def harness(np_, n, shape, exact=False, via="model"):
    def f(h):
        S = h.load("scattering")
        g = h.pos("g")
        sc = S.Scattering(["gamma_dos_func"], {"gamma_dos_max": g})
        cell = Cell()
        cell.dos_k = h.reals("dos", np_, pos=True)
        sc.bandObject = cell
        v, sp = carriers(h, "", n, shape, exact)
        k = [h.reals("k%d" % i, shape) for i in range(3)]
        if via == "model":
            got = sc.gamma_dos_func(*v)
        else:
            got = 1 / sc.tau_tot_func(*k, *v)
        h.eq("rate", got, rate(h, g, sp, list(cell.dos_k), shape))
    return f


def again(h):
    S = h.load("scattering")
    g = h.pos("g")
    sc = S.Scattering(["gamma_dos_func"], {"gamma_dos_max": g})
    cell = Cell()
    cell.dos_k = h.reals("dos", 2, pos=True)
    sc.bandObject = cell
    v, sp = carriers(h, "", 2, (2,), True)
    w, sw = carriers(h, "w", 4, (2, 2), True)
    h.eq("first", sc.gamma_dos_func(*v), rate(h, g, sp, list(cell.dos_k), (2,)))
    h.eq("other carriers", sc.gamma_dos_func(*w), rate(h, g, sw, list(cell.dos_k), (2, 2)))
    h.eq("first again", sc.gamma_dos_func(*v), rate(h, g, sp, list(cell.dos_k), (2,)))
    cell.dos_k = h.reals("dosb", 3, pos=True)
    h.eq("new surface", sc.gamma_dos_func(*v), rate(h, g, sp, list(cell.dos_k), (2,)))
    g2 = h.pos("g2")
    sc.scattering_params = {"gamma_dos_max": g2}
    h.eq("new amplitude", sc.gamma_dos_func(*v), rate(h, g2, sp, list(cell.dos_k), (2,)))


def surface(square):
    """on the surface of a real band the rate is amplitude * dos_k / max(dos_k)"""
    def f(h):
        from .common import Band
        C = h.load("conductivity")
        N = 3
        B = Band(h, N, square=square, uf=False)
        band = B.band
        sp = [h.pos("s%d" % i) for i in range(N)]
        vf = h.arr([[DIRS[i][d] * sp[i] for i in range(N)] for d in range(3)])
        band.marching_square = band.marching_cube = lambda epsilon=0: (B.kf, B.dkf)
        band.velocity_func = lambda kx, ky, kz: (vf[0], vf[1], vf[2])
        band.discretize_fermi_surface()
        g = h.pos("g")
        cond = C.Conductivity(band, 10, scattering_models=["gamma_dos_func"], scattering_params={"gamma_dos_max": g})
        S = [DIRS[i][3] * sp[i] for i in range(N)]
        dos = [1 / (h.const("hbar") * s) for s in S]
        h.eq("surface", 1 / cond.tau_tot_func(*B.kf, *vf), rate(h, g, S, dos, (N,)))
        # each carrier on its own
        h.eq("one carrier", 1 / cond.tau_tot_func(*B.kf[:, :1], *vf[:, :1]), rate(h, g, S[:1], dos, (1,)))
    return f


def cases(tier):
    out = [("1_1", harness(1, 1, (1,))), ("2_1", harness(2, 1, (1,))), ("3_2", harness(3, 2, (2,))),
           ("2_2d", harness(2, 2, (1, 2))), ("3_2d", harness(3, 4, (2, 2), True)), ("3_2d_column", harness(3, 2, (2, 1), True)), ("2_tau", harness(2, 3, (3,), True, "tau")),
           ("2_tau_2d", harness(2, 4, (2, 2), True, "tau")), ("1_tau_2d_row", harness(1, 3, (3, 1), True, "tau")),
           ("5_3", harness(5, 3, (3,), True)), ("again", again), ("surface_square", surface(True)), ("surface_cube", surface(False))]
    if tier == "thorough":
        out += [("4_4", harness(4, 4, (4,), True)), ("4_2d", harness(4, 6, (3, 2), True, "tau"))]
    return out
