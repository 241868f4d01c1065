"""A complete transport computation over an uninterpreted surface, velocity, flow and scattering rate, with its specification."""
import numpy as np
from .common import Band, Integrator
from .C12 import B_of


class Pipe:
    def __init__(self, h, N, nt, temp=False, models=("gk",), neps=2, tag="", world=None, field=True, ig=None, band_kw=None,
                 simple_v=False, field_flow=False, temps=(5, 60), **kw):
        self.h, self.N, self.nt, self.models, self.tag = h, N, nt, list(models), tag
        self.ig = ig or Integrator(h)
        self.C = world or h.load("conductivity", self.ig.stubs())
        self.B = B = Band(h, N, tag=tag, **(band_kw or {}))
        self.S = [[h.uf("k%s%d%s" % (d, p, tag)) for p in range(N)] for d in "xyz"]
        self.D = [h.uf("dkf%d%s" % (p, tag), "pos") for p in range(N)]
        self.levels = []
        band = self.band = B.band

        def march(epsilon=0):
            self.levels.append(epsilon)
            return h.arr([[f(epsilon) for f in row] for row in self.S]), h.arr([f(epsilon) for f in self.D])
        band.marching_square = band.marching_cube = march
        band.update_filling = lambda *a, **k: 0
        band.doping = lambda *a, **k: 0
        band.n = self.n = h.real("n" + tag, 0, 1)
        band.discretize_fermi_surface()
        if not self.levels:
            raise AttributeError("the surface finder was not reached through marching_square / marching_cube")
        self.G = {n: h.uf("rate_%s%s" % (n, tag), "pos") for n in ("gk", "gv", "ge")}
        self.g = {"g1": h.pos("g1" + tag)}
        G = self.G
        deco = self.C.Scattering.__dict__ and (lambda f: f)

        class Sc(self.C.Conductivity):
            @deco
            def gk(self, kx, ky, kz):
                return G["gk"](kx, ky, kz, self.g1)

            @deco
            def gv(self, vx, vy, vz):
                return G["gv"](vx, vy, vz, self.g1)

            @deco
            def ge(self, epsilon):
                return G["ge"](epsilon, self.g1)
        self.v = {"Bamp": h.real("Bamp" + tag, 5, 45) if field else 0, "Bphi": h.real("Bphi" + tag, 0, 90),
                  "Btheta": h.real("Btheta" + tag, 0, 90)}
        if field:
            h.nonzero(self.v["Bamp"])
        self.field = field
        self.rtol, self.atol = h.pos("rtol" + tag, 1e-6, 1e-3), h.pos("atol" + tag, 1e-6, 1e-3)
        self.T = h.pos("T" + tag, *temps) if temp else 0
        self.cut = h.num("0.25") if temp else h.num("0.001")
        self.neps = neps
        self.env = lambda: ()
        if field_flow:      # the orbits depend on the field
            self.ig.env = lambda: (self.cond.Bamp, self.cond.Bphi, self.cond.Btheta)
            self.env = lambda: (self.v["Bamp"], self.v["Bphi"], self.v["Btheta"])
        self.cond = Sc(band, N_time=nt, rtol=self.rtol, atol=self.atol, T=self.T, dfdE_cut_percent=self.cut, N_epsilon=neps,
                       scattering_models=list(models), scattering_params=dict(self.g), **self.v, **kw)

    # ------------------------------------------------------------------ specification
    def surface(self, e=0):
        return [[f(e) for f in row] for row in self.S]

    def weights(self, e=0):
        return [f(e) for f in self.D]

    def vel(self, k):
        return [V(*k) for V in self.B.V]

    def gamma(self, k, v, e):
        tot = 0
        for m in self.models:
            tot = tot + {"gk": lambda: self.G["gk"](*k, self.g["g1"]), "gv": lambda: self.G["gv"](*v, self.g["g1"]),
                         "ge": lambda: self.G["ge"](e, self.g["g1"])}[m]()
        return tot

    def taus(self, e=0, lev=0):
        k = self.surface(lev)
        out = []
        for p in range(self.N):
            kp = [k[d][p] for d in range(3)]
            out.append(1 / self.gamma(kp, self.vel(kp), e))
        return out

    def tmax(self):
        t = self.taus()
        m = t[0]
        for x in t[1:]:
            m = x if x > m else m
        return 8 * m

    def dt(self):
        return self.tmax() / self.nt

    def times(self):
        dt = self.dt()
        return [dt * i for i in range(self.nt)]

    def traj(self, e=0):
        """[point][time] -> (k, v)"""
        k = self.surface(e)
        ts = self.times() if self.field else [0]
        out = []
        for p in range(self.N):
            k0 = [k[d][p] for d in range(3)]
            row = []
            for i, t in enumerate(ts):
                kt = self.ig.flow(k0, t, i == 0, self.env())
                row.append((kt, self.vel(kt)))
            out.append(row)
        return out

    def exponent(self, tr, e=0):
        dt = self.dt()
        out = []
        for row in tr:
            acc, r = 0, []
            for i, (k, v) in enumerate(row):
                if i:
                    acc = acc + dt * self.gamma(k, v, e)
                r.append(acc)
            out.append(r)
        return out

    def units(self):
        h = self.h
        q = h.const("q_e")
        return 2 * q ** 2 / (2 * h.pi) ** 3 * 10 ** 8      # ps / Angstrom^2 in SI

    def sigma(self, e=0):
        h = self.h
        tr = self.traj(e)
        w = self.weights(e)
        out = [[0] * 3 for _ in range(3)]
        ex = self.exponent(tr, e) if self.field else None
        dt = self.dt() if self.field else None
        for p in range(self.N):
            k0, v0 = tr[p][0]
            dos = 1 / (h.const("hbar") * h.np.sqrt(v0[0] ** 2 + v0[1] ** 2 + v0[2] ** 2))
            for j in range(3):
                if self.field:
                    s = 0
                    for i, (k, v) in enumerate(tr[p]):
                        s = s + v[j] * (h.np.exp(-ex[p][i]) if i else 1) * dt
                else:
                    s = v0[j] / self.gamma(k0, v0, e)
                for i in range(3):
                    out[i][j] = out[i][j] + w[p] * dos * v0[i] * s
        u = self.units() / self.B.Z
        return h.arr([[u * x for x in row] for row in out])

    def speeds(self, e=0):
        """assume no carrier is exactly at rest"""
        for p in range(self.N):
            k = self.surface(e)
            v = self.vel([k[d][p] for d in range(3)])
            self.h.assume(v[0] ** 2 + v[1] ** 2 + v[2] ** 2 > 0)

    # -------------------------------------------------------------- finite temperature
    def kT(self):
        """kB T in meV"""
        h = self.h
        return h.const("k_B") * self.T / h.const("q_e") * 1000

    def minus_dfdE(self, e):
        h = self.h
        return 1 / (4 * self.kT() * h.np.cosh(e / (2 * self.kT())) ** 2)

    def energies(self):
        return list(self.cond.epsilon_array)

    def window_sums(self, eps):
        h = self.h
        de = eps[1] - eps[0]
        s = a = b = 0
        meV = h.const("q_e") / 1000
        for e in eps:
            w = de * self.minus_dfdE(e) * self.sigma(e)
            s = s + w
            a = a + w * (e * meV / (-h.const("q_e") * self.T))
            b = b + w * ((e * meV) ** 2 / (h.const("q_e") ** 2 * self.T))
        return s, a, b
