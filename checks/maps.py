"""Transport objects with uninterpreted conductivity tensors, driven by the real ADMR code."""
import numpy as np
from .common import Band


class Fake:
    """a real Conductivity whose runTransport answers an uninterpreted function of the current field angles

    Records every call.  tensor: "full" (nine functions) or "diag" (three positive ones).
    """

    def __init__(self, h, tag, tensor="full", world=None, extra=None, **kw):
        self.h, self.tag, self.tensor = h, tag, tensor
        self.C = world or h.load("conductivity")
        self.B = Band(h, 1, tag=tag, nbz=1)
        self.kw = kw
        self.extra = extra or (lambda c: [])
        args = dict(scattering_models=["isotropic"], scattering_params={"gamma_0": 1})
        args.update(kw)
        band = self.B.bare()
        band.n = self.n = h.real("n" + tag, 0, 1)
        self.cond = self.C.Conductivity(band, args.pop("Bamp", h.real("B" + tag, 5, 45)), **args)
        self.calls = []
        n = "diag" if tensor == "diag" else "full"
        self.F = {(i, j): h.uf("s%d%d%s" % (i, j, tag), "pos" if i == j else None) for i in range(3) for j in range(3)
                  if n == "full" or i == j}
        cond = self.cond

        def run():
            self.calls.append((cond.Bphi, cond.Btheta))
            cond.sigma = self.sigma(cond.Bphi, cond.Btheta, *self.extra(cond))
        cond.runTransport = run

    def sigma(self, phi, theta, *more):
        h = self.h
        # the diagonal is kept away from the other entries so that concrete replays are well conditioned
        return h.arr([[self.F[i, j](phi, theta, *more) * (3 if i == j else 1) if (i, j) in self.F else 0 * phi for j in range(3)]
                      for i in range(3)])


def total(h, fakes, phi, theta):
    s = [[0] * 3 for _ in range(3)]
    for f in fakes:
        m = f.sigma(phi, theta, *f.extra(f.cond))
        for i in range(3):
            for j in range(3):
                s[i][j] = s[i][j] + m[i, j]
    return s


def det(s):
    s = [[s[i][j] for j in range(3)] for i in range(3)]
    return (s[0][0] * (s[1][1] * s[2][2] - s[1][2] * s[2][1]) - s[0][1] * (s[1][0] * s[2][2] - s[1][2] * s[2][0])
            + s[0][2] * (s[1][0] * s[2][1] - s[1][1] * s[2][0]))


def rhozz(h, fakes, phi, theta):
    s = total(h, fakes, phi, theta)
    d = det(s)
    h.nonzero(d)
    m = s[0][0] * s[1][1] - s[0][1] * s[1][0]
    return m / d


def interp(x, xs, ys):
    """piecewise linear, constant outside"""
    if x <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ys[-1]
