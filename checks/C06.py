"""C06 triangulated Fermi surface."""
import numpy as np
from .C04 import band_of, axis
from .common import set_velocity

BOUNDS = ("meshes of 1-4 triangles over 3-5 vertices (shared vertices and edges, a closed tetrahedron; 6 triangles thorough) "
          "with arbitrary real vertex positions; all cells, windows and levels; grids 3x3x3, 3x5x3, 5x3x3")
OUTSIDE = "larger meshes (the weight of a vertex only depends on its own triangles)"
ASSUMPTIONS = ["skimage.measure.marching_cubes returns an arbitrary mesh in units of the spacing it is given"]

MESHES = {"one": (3, [(0, 1, 2)]), "two": (4, [(0, 1, 2), (2, 1, 3)]), "strip": (5, [(0, 1, 2), (1, 2, 3), (4, 3, 2)]),
          "tetra": (4, [(0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2)]),
          "octa": (6, [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5)])}


def make(mesh, res, via):
    nv, faces = MESHES[mesh]

    def f(h):
        got = {}

        def marching_cubes(volume, level=None, *a, spacing=(1, 1, 1), gradient_direction="descent", step_size=1,
                           allow_degenerate=True, method="lewiner", mask=None):
            idx = h.reals("v", (nv, 3))
            got.update(volume=volume, level=level, idx=idx, step=step_size, mask=mask)
            return idx * h.arr(list(spacing)), np.array(faces), idx * 0, idx[:, 0] * 0
        bs = h.load("bandstructure", {"skimage.measure": {"marching_cubes": marching_cubes}})
        band, eps, win, Z = band_of(h, bs)
        band.resolution = list(res)
        level = h.real("level")
        if via == "method":
            kf, dkf = band.marching_cube(level)
        elif via == "default":
            level = 0
            kf, dkf = band.marching_cube()
        else:
            set_velocity(band, [lambda x, y, z: x * 0 + 1, lambda x, y, z: y * 0, lambda x, y, z: z * 0])
            band.discretize_fermi_surface(epsilon=level)
            kf, dkf = band.kf, band.dkf
        ax = [axis(h, w, n) for w, n in zip(win, res)]
        ex = np.empty(tuple(res), dtype=object)
        for i, j, k in np.ndindex(*res):
            ex[i, j, k] = eps(ax[0][i], ax[1][j], ax[2][k])
        h.eq("volume", got["volume"], h.arr(ex), scale=1.0)
        h.eq("level", got["level"], level)
        h.same("step", got["step"], 1)
        h.same("mask", got["mask"], None)
        V = np.empty((nv, 3), dtype=object)
        for i in range(nv):
            for j in range(3):
                V[i, j] = -win[j] + got["idx"][i, j] * (2 * win[j] * h.q(1, res[j] - 1))
        h.eq("kf", kf, h.arr(V.T), scale=1.0)
        w = [0] * nv
        total = 0
        for t in faces:
            p, q, r = (V[i] for i in t)
            u, v = q - p, r - p
            cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            area = h.np.sqrt(cr[0] ** 2 + cr[1] ** 2 + cr[2] ** 2) / 2
            total = total + area
            for i in t:
                w[i] = w[i] + area / 3
        h.eq("weights", dkf, h.arr(w), scale=1.0)
        s = 0
        for x in dkf:
            s = s + x
        h.eq("total_area", s, total, scale=1.0)
        h.le("nonnegative", h.arr([0] * nv), dkf)
    return f


def cases(tier):
    out = [("one", make("one", (3, 3, 3), "method")), ("two", make("two", (3, 5, 3), "method")),
           ("strip", make("strip", (5, 3, 3), "discretize")), ("tetra", make("tetra", (3, 3, 5), "discretize")),
           ("two_default", make("two", (3, 3, 3), "default"))]
    if tier == "thorough":
        out += [("octa", make("octa", (3, 3, 3), "method")), ("tetra_333", make("tetra", (5, 5, 3), "method"))]
    return out
