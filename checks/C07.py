"""C07 sliced Fermi surface (marching_square)."""
import numpy as np
from .C01 import Q1D
from .common import set_energy

BOUNDS = ("3 kz planes with 0-3 contours each, 7 planes at another resolution (every placement of empty planes below), contours of 2 vertices (3 in the bent "
          "case) at arbitrary positions, 3 to 6 resampled points per contour; all positive cells (square and rectangular), "
          "windows and energies; two successive discretisations of one band")
OUTSIDE = ("contours of more vertices or more resampled points (the code is uniform in both); the contour finder itself "
           "(scikit-image); tetragonal cells whose bands are not four-fold symmetric")
ASSUMPTIONS = ["find_contours returns arbitrary polylines with non-zero segment lengths, in grid-index units",
               "the band energy is an uninterpreted function; the rough mesh is 2, 3 or 6 points wide (twice that for rectangular cells)"]


DIRS = [(3, 4, 5), (12, -5, 13), (-8, 15, 17)]


def contour(h, square, abc, K, name, nvert, free):
    """vertices in grid-index units: free, or with displacements along fixed rational directions (exact lengths)"""
    if free:
        return [[h.real("u%s_%d" % (name, v), 0.05, .95), h.real("v%s_%d" % (name, v), .05, .95)] for v in range(nvert)]
    a, b, c = abc
    s = 1 if square else h.q(3, 2)
    out = [[h.real("u%s" % name, .05, .95), h.real("v%s" % name, .05, .95)]]
    for v in range(1, nvert):
        d = h.pos("d%s_%d" % (name, v), .02, .4)
        dx, dy, _ = DIRS[v - 1]
        out.append([out[-1][0] + s * dx * d * a / K[0], out[-1][1] + s * dy * d * b / K[1]])
    return out


def build(h, square, counts, nvert=2, free=True, runs=1, resolution=(3, 3, 3), rough=2):
    planes = []      # planes[run][j] = list of contours (list of (i, j) index pairs)
    state = {"img": [], "n": 0, "run": 0}

    def find_contours(img, level=None, **k):
        j = state["n"]
        state["n"] += 1
        state["img"].append((img, level))
        return [h.arr(c) for c in planes[state["run"]][j]]
    bs = h.load("bandstructure", {"skimage.measure": {"find_contours": find_contours}})
    a, c = h.pos("a"), h.pos("c")
    b = a if square else h.pos("b")
    if not square:
        h.nonzero(a - b)
    K = [h.pos("K%d" % j) for j in range(3)]
    band = bs.BandStructure(a, b, c, h.pos("E"), band_params={"t": 1, "Tb": 1, "z1": 0, "A2": 0, "mu": 0}, band_model=Q1D,
                            k_max=K, parallel=False, resolution=list(resolution), march_square=True)
    band.res_xy_rough = rough
    eps = h.uf("eps")
    set_energy(band, eps)
    for r in range(runs):
        ps = []
        for j, n in enumerate(counts[r]):
            ps.append([contour(h, square, (a, b, c), K, "%d_%d_%d" % (r, j, i), nvert, free) for i in range(n)])
        planes.append(ps)
    return band, eps, (a, b, c), K, planes, state


def polyline(h, pts):
    seg = [h.np.sqrt((q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2) for p, q in zip(pts, pts[1:])]
    for s in seg:
        h.assume(s > 0)
    cum = [0]
    for s in seg:
        cum.append(cum[-1] + s)
    return seg, cum


def at(pts, seg, cum, t):
    for i in range(len(seg)):
        if i == len(seg) - 1 or t <= cum[i + 1]:
            w = (t - cum[i]) / seg[i]
            return [pts[i][d] + w * (pts[i + 1][d] - pts[i][d]) for d in (0, 1)]


def harness(square, counts, nvert=2, lo=0, hi=4, level=True, free=True, resolution=(3, 3, 3), rough=2):
    def f(h):
        runs = len(counts)
        band, eps, (a, b, c), K, planes, st = build(h, square, counts, nvert, free, runs=runs, resolution=resolution, rough=rough)
        res = resolution[0]
        n0 = rough if square else 2 * rough
        for r in range(runs):
            # physical polylines
            geo = []
            for ps in planes[r]:
                g = []
                for ct in ps:
                    if square:
                        pts = [[u * K[0] / a / (rough - 1), v * K[1] / b / (rough - 1)] for u, v in ct]
                    else:
                        pts = [[(2 * u / (n0 - 1) - 1) * K[0] / a, (2 * v / (n0 - 1) - 1) * K[1] / b] for u, v in ct]
                    seg, cum = polyline(h, pts)
                    h.assume(cum[-1] * a <= hi * h.pi / res)
                    if lo:
                        h.assume(cum[-1] * a > lo * h.pi / res)
                    g.append((pts, seg, cum))
                geo.append(g)
            e0 = h.real("level%d" % r) if level else 0
            st["run"], st["n"], st["img"] = r, 0, []
            kf, dkf = band.marching_square(e0) if level else band.marching_square()
            verify(h, "run%d " % r if r else "", band, eps, (a, b, c), K, geo, st, kf, dkf, e0, square, n0, res, resolution[2])
    return f


def verify(h, tag, band, eps, abc, K, geo, st, kf, dkf, e0, square, n0, res, nz=3):
    a, b, c = abc
    W = [k / l for k, l in zip(K, abc)]
    dkz = 2 * W[2] / (nz - 1)
    kzs = [W[2] * h.q(2 * j - nz + 1, nz - 1) for j in range(nz)]
    # the contour finder sees the band energy of each plane on the window mesh, at the requested level
    h.same(tag + "planes", len(st["img"]), nz)
    for j, (img, lv) in enumerate(st["img"]):
        h.eq(tag + "level", lv, e0)
        want = np.empty((n0, n0), dtype=object)
        for i1 in range(n0):
            for i2 in range(n0):
                if square:
                    x, y = W[0] * h.q(i1, n0 - 1), W[1] * h.q(i2, n0 - 1)
                else:
                    x, y = W[0] * h.q(2 * i1 - n0 + 1, n0 - 1), W[1] * h.q(2 * i2 - n0 + 1, n0 - 1)
                want[i1, i2] = eps(x, y, kzs[j])
        h.eq(tag + "mesh", img, h.arr(want), scale=1.0)
    rot = 4 if square else 1
    ncont = sum(len(g) for g in geo)
    N = kf.shape[1]
    if not ncont:
        h.same(tag + "none", N, 0)
        return
    if all(len(g) <= 1 for g in geo):       # one contour per plane: each may have its own number of points
        ms = [int(n) // rot for n in band.number_of_points_per_kz_list]
        if len(ms) != nz or rot * sum(ms) != N or any((m > 0) != (len(g) > 0) for m, g in zip(ms, geo)):
            return h.fail(tag + "points", "%s points per plane, %d points" % (band.number_of_points_per_kz_list, N))
    else:
        if N % (rot * ncont):
            return h.fail(tag + "points", "%d points for %d contours" % (N, ncont))
        ms = [N // (rot * ncont)] * nz
    h.true(tag + "several points per contour", all(m >= 2 for m, g in zip(ms, geo) if g))
    X, Y, Z, DK, DS, DZ, per = [], [], [], [], [], [], []
    for j, g in enumerate(geo):
        m = ms[j]
        for pts, seg, cum in g:
            L = cum[-1]
            P = [at(pts, seg, cum, L * h.q(i, m)) for i in range(m)]
            blocks = [[(x, y) for x, y in P]]
            if square:
                blocks += [[(y, -x) for x, y in P], [(-x, -y) for x, y in P], [(-y, x) for x, y in P]]
            for bl in blocks:
                X += [p[0] for p in bl]
                Y += [p[1] for p in bl]
            n = rot * m
            Z += [kzs[j]] * n
            DS += [L / m] * n
            DZ += [dkz] * n
            DK += [L / m * dkz] * n
            h.le(tag + "spacing", L / m * a, 4 * h.pi / (3 * res), tol=1e-6)
        per.append(rot * m * len(g))
    h.eq(tag + "kx", kf[0], h.arr(X), scale=.1)
    h.eq(tag + "ky", kf[1], h.arr(Y), scale=.1)
    h.eq(tag + "kz", kf[2], h.arr(Z), scale=.1)
    h.eq(tag + "dkf", dkf, h.arr(DK))
    h.eq(tag + "dks", band.dks, h.arr(DS))
    h.eq(tag + "dkz", band.dkz, h.arr(DZ))
    h.same(tag + "rows", kf.shape[0], 3)
    h.same(tag + "per_kz", [int(n) for n in band.number_of_points_per_kz_list], per)


def cases(tier):
    out = []
    for sq in (True, False):
        nm = "square" if sq else "rect"
        out.append((nm + "_1", harness(sq, [(1, 1, 1)])))
        for ct in ((0, 1, 1), (0, 0, 1), (0, 2, 0)):
            out.append((nm + "_%d%d%d" % ct, harness(sq, [ct])))
        for ct in ((1, 0, 2), (2, 1, 0), (1, 2, 0)):
            out.append((nm + "_%d%d%d" % ct, harness(sq, [ct], free=False)))
        out.append((nm + "_bent", harness(sq, [(0, 1, 0)], nvert=3, free=False)))
        out.append((nm + "_5pts", harness(sq, [(0, 1, 0)], lo=4, hi=6)))
        out.append((nm + "_5pts_dir", harness(sq, [(0, 1, 0)], lo=4, hi=6, free=False)))
        out.append((nm + "_default_level", harness(sq, [(0, 1, 0)], level=False)))
        out.append((nm + "_twice", harness(sq, [(1, 1, 0), (0, 1, 2)], free=False)))
        out.append((nm + "_030", harness(sq, [(0, 3, 0)], free=False)))
        out.append((nm + "_rough3", harness(sq, [(0, 1, 1)], free=False, rough=3)))
        out.append((nm + "_rough6", harness(sq, [(0, 1, 0)], free=False, rough=6)))
        out.append((nm + "_res395", harness(sq, [(0, 1, 0, 1, 0)], lo=4, hi=5, free=False, resolution=(3, 9, 5))))
        out.append((nm + "_res537", harness(sq, [(0, 1, 0, 0, 0, 1, 0)], lo=4, hi=6, free=False, resolution=(5, 3, 7))))
        if tier == "thorough":
            out.append((nm + "_102_free", harness(sq, [(1, 0, 2)])))
            out.append((nm + "_222", harness(sq, [(2, 2, 2)], free=False)))
            out.append((nm + "_bent5", harness(sq, [(0, 1, 0)], nvert=3, lo=4, hi=6, free=False)))
            out.append((nm + "_bent4", harness(sq, [(1, 0, 0)], nvert=4, free=False)))
            out.append((nm + "_thrice", harness(sq, [(1, 1, 0), (0, 1, 2), (2, 0, 0)], free=False)))
    return out
