"""C10 built-in angular scattering rates."""
import numpy as np

BOUNDS = ("every momentum: any (rho, phi) inside the first zone or on its boundary plus any reciprocal-lattice vector with |n|, |m| <= 10^6; "
          "all rectangular cells; symbolic positive exponents and exponents 1, 2, 12 (3, 7, 20 thorough); "
          "1, 2 or 4 carriers, one- and two-dimensional arrays; several momenta and cells evaluated on one object")
OUTSIDE = "the zone centre kx = ky = 0 itself, where the angle is undefined"
ASSUMPTIONS = ["real arithmetic: rounding of momenta that lie exactly on the zone boundary is not modelled"]


class Cell:
    pass


def cell(h, s=""):
    c = Cell()
    c.a, c.b, c.c = h.pos("a" + s), h.pos("b" + s), h.pos("c" + s)
    return c


class Pt:
    """a momentum: (rho cos phi, rho sin phi) inside the zone, plus any reciprocal-lattice vector"""

    def __init__(self, h, c, s, shift=True, edge=None):
        self.rho, self.phi = h.pos("rho" + s, .02, 1.2), h.real("phi" + s, -3.1, 3.1)
        n = h.integer("n" + s, -1000000, 1000000) if shift else 0
        m = h.integer("m" + s, -1000000, 1000000) if shift else 0
        self.kz = h.real("kz" + s)
        zx, zy = h.pi / c.a, h.pi / c.b
        if edge:     # exactly on the zone boundary kx = +-pi/a
            self.X, self.Y = edge * zx, h.real("t" + s, -.95, .95, bounded=True) * zy
        else:
            self.X, self.Y = self.rho * h.np.cos(self.phi), self.rho * h.np.sin(self.phi)
            h.assume((self.X < zx) & (self.X > -zx) if h.sym else abs(self.X) < zx)
            h.assume((self.Y < zy) & (self.Y > -zy) if h.sym else abs(self.Y) < zy)
        self.edge = edge
        self.kx, self.ky = self.X + 2 * n * zx, self.Y + 2 * m * zy
        self.c = c

    def factors(self, h):
        cz = abs(h.np.cos(self.kz * self.c.c / 2))
        if self.edge:
            r2 = self.X ** 2 + self.Y ** 2
            return abs((self.X ** 2 - self.Y ** 2) / r2), abs(2 * self.X * self.Y / r2), cz
        return abs(h.np.cos(2 * self.phi)), abs(h.np.sin(2 * self.phi)), cz


def rate(h, name, p, pt):
    c2, s2, cz = pt.factors(h)
    if name == "isotropic":
        return p["gamma_0"]
    if name == "cos2phi":
        return p["gamma_k"] * c2 ** p["power"]
    if name == "cos2phi_coskz":
        return p["gamma_k"] * c2 ** p["power"] * cz ** p["power_z"]
    return p["gamma_k_sin"] * s2 ** p["power_sin"]


AMP = {"isotropic": "gamma_0", "cos2phi": "gamma_k", "cos2phi_coskz": "gamma_k", "sin2phi": "gamma_k_sin"}


def params(h, pw, s=""):
    def q(n):
        return h.pos(n + s, .5, 4) if pw is None else pw
    return {"gamma_0": h.pos("gamma_0" + s), "gamma_k": h.pos("gamma_k" + s), "gamma_k_sin": h.pos("gamma_k_sin" + s),
            "power": q("power"), "power_z": q("power_z") if pw is None else pw + 1, "power_sin": q("power_sin")}


def shaped(h, pts, shape):
    out = []
    for n in ("kx", "ky", "kz"):
        v = np.empty(len(pts), dtype=object)
        for i, p in enumerate(pts):
            v[i] = getattr(p, n)
        out.append(h.arr(v.reshape(shape)))
    return out


def formula(name, pw=None, npts=1, shape=(1,), bound=False, shift=True, edge=None):
    def f(h):
        S = h.load("scattering")
        c = cell(h)
        p = params(h, pw)
        pts = [Pt(h, c, str(i), shift, edge) for i in range(npts)]
        sc = S.Scattering([name], dict(p))
        sc.bandObject = c
        k = shaped(h, pts, shape)
        got = getattr(sc, name)(*k)
        w = np.empty(npts, dtype=object)
        for i, pt in enumerate(pts):
            w[i] = rate(h, name, p, pt)
        h.eq("rate", got, h.arr(w.reshape(shape)), scale=1e-3)
        if name != "isotropic" and not edge and hasattr(sc, "phi_func"):
            ph = sc.phi_func(*k)
            r = np.empty(npts, dtype=object)
            X, Y = r.copy(), r.copy()
            for i, pt in enumerate(pts):
                r[i] = pt.rho
                X[i], Y[i] = pt.X, pt.Y
            r, X, Y = [h.arr(q.reshape(shape)) for q in (r, X, Y)]
            h.eq("cosine of the angle", h.np.cos(ph) * r, X, scale=1e-3)
            h.eq("sine of the angle", h.np.sin(ph) * r, Y, scale=1e-3)
        if bound:
            if pw is None:      # 0 ** power is covered by the integer exponents
                for pt in pts:
                    h.nonzero(*pt.factors(h))
            h.le("non-negative", h.arr(np.zeros(shape)) if not h.sym else got * 0, got)
            h.le("amplitude", got, got * 0 + p[AMP[name]])
    return f


def sequence(name):
    """several momenta, cells and parameters on one object"""
    def f(h):
        S = h.load("scattering")
        c = cell(h)
        p = params(h, 2)
        sc = S.Scattering([name], dict(p))
        sc.bandObject = c

        def ev(pts, p, tag, sc=sc):
            for shape in ((1, len(pts)), (len(pts),), (len(pts), 1)):
                got = getattr(sc, name)(*shaped(h, pts, shape))
                w = np.empty(len(pts), dtype=object)
                for i, pt in enumerate(pts):
                    w[i] = rate(h, name, p, pt)
                h.eq(tag, got, h.arr(w.reshape(shape)), scale=1e-3)
        pt = Pt(h, c, "0", False)
        ev([pt], p, "first")
        ev([Pt(h, c, "1", False)], p, "second state")
        p2 = params(h, 3, "x")
        sc.scattering_params = dict(p2)
        ev([pt], p2, "edited parameters")
        c2 = cell(h, "x")
        sc.bandObject = c2
        ev([Pt(h, c2, "0", False)], p2, "another band")
    return f


def cases(tier):
    out = []
    for n in AMP:
        out.append((n, formula(n, bound=True)))
        for pw in (1, 2, 12) + ((3, 7, 20) if tier == "thorough" else ()):
            out.append(("%s_%d" % (n, pw), formula(n, pw, bound=pw == 1)))
        for e in (1, -1):
            out.append(("%s_edge%+d" % (n, e), formula(n, 2, edge=e)))
        out.append((n + "_pair", formula(n, None, 2, (2,))))
        out.append((n + "_2d", formula(n, 2, 2, (1, 2))))
        out.append((n + "_2d_4", formula(n, None, 4, (2, 2), shift=False)))
        out.append((n + "_sequence", sequence(n)))
    return out
