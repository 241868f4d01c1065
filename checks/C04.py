"""C04 filling and doping count occupied grid states exactly."""
import numpy as np
from .C01 import Q1D
from .common import set_energy

BOUNDS = ("grids up to 3x2x2 and 7x1x1 (4x3x3 thorough) with an arbitrary (uninterpreted) energy at every grid point, ties at zero "
          "included; all cells, momentum windows and positive zone counts; 1-3 bands; a second count after the grid, the zone count, the window or the cell has changed")
OUTSIDE = "larger grids (the count is uniform in the grid point)"
ASSUMPTIONS = ["the band energy is an uninterpreted function of momentum"]


def band_of(h, bs, i=""):
    a, b, c = h.pos("a" + i), h.pos("b" + i), h.pos("c" + i)
    K = [h.pos("K%s%d" % (i, j)) for j in range(3)]
    Z = h.pos("nbz" + i)
    band = bs.BandStructure(a, b, c, h.pos("E" + i), band_params={"t": 1, "Tb": 1, "z1": 0, "A2": 0, "mu": 0}, band_model=Q1D,
                            k_max=K, number_of_bz=Z, parallel=False, resolution=[3, 3, 3])
    f = h.uf("eps" + i)
    set_energy(band, f)
    return band, f, (K[0] / a, K[1] / b, K[2] / c), Z


def axis(h, w, n):
    if n == 1:
        return [-w]
    return [-w + 2 * w * h.q(i, n - 1) for i in range(n)]


def occupied(h, f, win, res, Z):
    ax = [axis(h, w, n) for w, n in zip(win, res)]
    tot = 0
    for x in ax[0]:
        for y in ax[1]:
            for z in ax[2]:
                tot = tot + h.ind(f(x, y, z) <= 0)
    return 2 * tot * h.q(1, res[0] * res[1] * res[2]) / Z


def single(res, how):
    def f(h):
        bs = h.load("bandstructure")
        band, eps, win, Z = band_of(h, bs)
        n = occupied(h, eps, win, res, Z)
        if how == "doping":
            r = band.doping(*res)
            h.eq("returned", r, 1 - n, scale=1.0)
        elif how == "filling":
            r = band.filling(*res)
            h.eq("returned", r, n, scale=1.0)
        else:
            r = band.update_filling(res_z=res[2], res_x=res[0], res_y=res[1])
            h.eq("returned", r, n, scale=1.0)
        h.eq("n", band.n, n, scale=1.0)
        h.eq("p", band.p, 1 - n, scale=1.0)
    return f


def run(h):
    """runBandStructure leaves filling and doping of the current band"""
    bs = h.load("bandstructure")
    band, eps, win, Z = band_of(h, bs)
    band.resolution = [1, 1, 1]
    band.discretize_fermi_surface = lambda *a, **k: None
    seen = []
    real = band.dispersion_grid

    def grid(resolution):
        seen.append([int(r) for r in resolution])
        return real([2, 1, 2])
    band.dispersion_grid = grid
    band.runBandStructure()
    n = occupied(h, eps, win, [2, 1, 2], Z)
    h.eq("n", band.n, n, scale=1.0)
    h.eq("p", band.p, 1 - n, scale=1.0)


def grid(res):
    def f(h):
        bs = h.load("bandstructure")
        band, eps, win, Z = band_of(h, bs)
        e, kxx, kyy, kzz, kx, ky, kz = band.dispersion_grid(list(res))
        ax = [axis(h, w, n) for w, n in zip(win, res)]
        for nm, g, w in zip("xyz", (kx, ky, kz), ax):
            h.eq("axis_" + nm, g, h.arr(w))
        ex = np.empty(tuple(res), dtype=object)
        gx, gy, gz = ex.copy(), ex.copy(), ex.copy()
        for i, j, k in np.ndindex(*res):
            ex[i, j, k] = eps(ax[0][i], ax[1][j], ax[2][k])
            gx[i, j, k], gy[i, j, k], gz[i, j, k] = ax[0][i], ax[1][j], ax[2][k]
        h.eq("energy", e, h.arr(ex), scale=1.0)
        h.eq("kxx", kxx, h.arr(gx))
        h.eq("kyy", kyy, h.arr(gy))
        h.eq("kzz", kzz, h.arr(gz))
    return f


def per_kz(res):
    def f(h):
        bs = h.load("bandstructure")
        band, eps, win, Z = band_of(h, bs)
        n, p = band.doping_per_kz(*res)
        ax = [axis(h, w, m) for w, m in zip(win, res)]
        want = []
        for z in ax[2]:
            t = 0
            for x in ax[0]:
                for y in ax[1]:
                    t = t + h.ind(eps(x, y, z) <= 0)
            want.append(2 * t * h.q(1, res[0] * res[1]) / Z)
        h.eq("n_per_kz", n, h.arr(want), scale=1.0)
        h.eq("p_per_kz", p, h.arr([1 - w for w in want]), scale=1.0)
    return f


def multi(nb, coarse=False):
    def f(h):
        bs = h.load("bandstructure")
        bands, tot = [], 0
        for i in range(nb):
            band, eps, win, Z = band_of(h, bs, str(i))
            real = band.dispersion_grid
            band.dispersion_grid = lambda resolution, r=real: r([2, 1, 2] if resolution[0] > 100 else resolution)
            if coarse:
                band.doping(1, 1, 2)
            bands.append(band)
            tot = tot + occupied(h, eps, win, [2, 1, 2], Z)
        h.eq("total", bs.doping(bands), 1 - tot, scale=1.0)
        h.eq("total_again", bs.doping(bands, printDoping=True), 1 - tot, scale=1.0)
    return f


def again(edit):
    """asked a second time, after a change, the count is that of the second question"""
    def f(h):
        bs = h.load("bandstructure")
        band, eps, win, Z = band_of(h, bs)
        res = (2, 1, 2)
        h.eq("first", band.doping(*res), 1 - occupied(h, eps, win, res, Z), scale=1.0)
        if edit == "resolution":
            res = (1, 3, 2)
        elif edit == "number_of_bz":
            band.number_of_bz = Z = h.pos("nbz_b")
        elif edit == "k_max":
            K = [h.pos("Kb%d" % i) for i in range(3)]
            band.k_max = K
            win = (K[0] / h.pos("a"), K[1] / h.pos("b"), K[2] / h.pos("c"))
        elif edit == "cell":
            band.a, band.b, band.c = h.pos("a_b"), h.pos("b_b"), h.pos("c_b")
            K = [h.pos("K%d" % i) for i in range(3)]
            win = (K[0] / band.a, K[1] / band.b, K[2] / band.c)
        n = occupied(h, eps, win, res, Z)
        h.eq("second_doping", band.doping(*res), 1 - n, scale=1.0)
        h.eq("second_filling", band.filling(*res), n, scale=1.0)
        h.eq("n", band.n, n, scale=1.0)
        h.eq("p", band.p, 1 - n, scale=1.0)
    return f


def cases(tier):
    out = [("update_322", single((3, 2, 2), "update")), ("doping_222", single((2, 2, 2), "doping")),
           ("filling_213", single((2, 1, 3), "filling")), ("run", run), ("grid_232", grid((2, 3, 2))), ("grid_312", grid((3, 1, 2))),
           ("per_kz_223", per_kz((2, 2, 3))), ("per_kz_312", per_kz((3, 1, 2))),
           ("update_711", single((7, 1, 1), "update")), ("per_kz_161", per_kz((1, 6, 1))), ("grid_181", grid((1, 8, 1))), ("multi_1", multi(1)), ("multi_2", multi(2)), ("multi_3", multi(3)), ("multi_coarse", multi(2, True))]
    out += [("again_" + e, again(e)) for e in ("resolution", "number_of_bz", "k_max", "cell")]
    if tier == "thorough":
        out += [("update_433", single((4, 3, 3), "update")), ("doping_325", single((3, 2, 5), "doping")), ("grid_345", grid((3, 4, 5))), ("per_kz_335", per_kz((3, 3, 5)))]
    return out
