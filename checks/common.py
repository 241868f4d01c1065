"""Shared builders for the harnesses (dual mode: symbolic and concrete)."""
import numpy as np

DEFAULT_MODEL = ("- mu - 2*t*(cos(a*kx) + cos(b*ky))"
                 "- 4*tp*cos(a*kx)*cos(b*ky)"
                 "- 2*tpp*(cos(2*a*kx) + cos(2*b*ky))"
                 "- 2*tz*(cos(a*kx) - cos(b*ky))**2*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)")


def noop(*a, **k):
    return None


def set_energy(band, f):
    """replace the dispersion of one band object by f(kx, ky, kz)"""
    band.energy_func = lambda kx, ky, kz: f(kx, ky, kz)
    band.epsilon_func = lambda kx, ky, kz, *p: f(kx, ky, kz)


def set_velocity(band, V):
    """replace the velocity of one band object by the three functions V"""
    def v(kx, ky, kz, *p):
        return V[0](kx, ky, kz), V[1](kx, ky, kz), V[2](kx, ky, kz)
    band.velocity_func = lambda kx, ky, kz: v(kx, ky, kz)
    band.v_func = v


class Band:
    """a real BandStructure with uninterpreted velocity and a given surface

    The discretisers (decided by C06, C07) are replaced by the surface (kf, dkf); everything else is the real code.
    """

    def __init__(self, h, N, tag="", square=True, dirs=None, uf=True, nbz=None, **kw):
        from .C01 import Q1D
        self.h, self.N, self.tag, self.square = h, N, tag, square
        bs = h.world.load("cuprates_transport.bandstructure")
        self.a, self.b, self.c = h.pos("a" + tag), h.pos("b" + tag), h.pos("c" + tag)
        self.Z = h.pos("nbz" + tag) if nbz is None else nbz
        args = dict(band_name="B" + tag, band_params={"t": 1, "Tb": 1, "z1": 0, "A2": 0, "mu": 0}, band_model=Q1D, parallel=False,
                    resolution=[3, 3, 3], number_of_bz=self.Z, march_square=square)
        args.update(kw)
        self.band = bs.BandStructure(self.a, self.b, self.c, h.pos("E" + tag), **args)
        self.V = [h.uf("v" + x + tag) for x in "xyz"]
        if uf:
            set_velocity(self.band, self.V)
        self.kf, self.dkf = h.reals("kf" + tag, (3, N)), h.reals("dkf" + tag, N, pos=True)

    def bare(self):
        """surface attributes set directly, at arbitrary positions, with arbitrary velocities"""
        h, b, t = self.h, self.band, self.tag
        b.kf, b.dkf = self.kf, self.dkf
        b.vf = h.reals("vf" + t, (3, self.N))
        b.dos_k = h.reals("dos" + t, self.N, pos=True)
        b.dks, b.dkz = h.reals("dks" + t, self.N, pos=True), h.reals("dkz" + t, self.N, pos=True)
        self.vf, self.dos = b.vf, b.dos_k
        return b


class Integrator:
    """stand-in for the ODE solvers: records the problem, answers with an uninterpreted flow of each carrier

    Contract used: the solution at the first time is the initial state; the solution of a carrier at a later time is an
    arbitrary function of that carrier's own initial state and of the time.
    """

    def __init__(self, h):
        self.h = h
        self.F = [h.uf("flow" + x) for x in "xyz"]
        self.calls = []
        self.env = None     # optional: what else the flow depends on (e.g. the field), read when the solver is called

    def flow(self, k0, t, first, env=()):
        """k0: three coordinates"""
        return list(k0) if first else [f(k0[0], k0[1], k0[2], t, *env) for f in self.F]

    def _solve(self, fun, y0, ts, rtol, atol):
        h = self.h
        y0 = np.array(list(np.asarray(y0).reshape(-1)), dtype=object)
        n = len(y0) // 3
        self.calls.append({"fun": fun, "y0": y0, "t": list(ts), "rtol": rtol, "atol": atol})
        out = np.empty((len(ts), 3 * n), dtype=object)
        env = self.env() if self.env else ()
        for i, t in enumerate(ts):
            for p in range(n):
                k = self.flow([y0[p], y0[n + p], y0[2 * n + p]], t, i == 0, env)
                out[i, p], out[i, n + p], out[i, 2 * n + p] = k
        return h.arr(out)

    def odeint(self, func, y0, t, args=(), rtol=None, atol=None, tfirst=False, full_output=0, **k):
        if tfirst:
            f = lambda y, s: func(s, y, *args)
        else:
            f = lambda y, s: func(y, s, *args)
        r = self._solve(f, y0, t, rtol, atol)
        return (r, {}) if full_output else r

    def solve_ivp(self, fun, t_span, y0, method=None, t_eval=None, rtol=1e-3, atol=1e-6, args=None, **k):
        r = self._solve(lambda y, s: fun(s, y, *(args or ())), y0, t_eval, rtol, atol)

        class Sol:
            t, y, success, status = t_eval, r.T, True, 0
        return Sol

    def rhs(self, i, k, t=0):
        """the rate of change asked from the i-th integration, at a flat state k"""
        h = self.h
        r = self.calls[i]["fun"](h.arr(list(k)), t)
        return h.arr(list(np.asarray(r).reshape(-1)))

    def stubs(self):
        return {"scipy.integrate": {"odeint": self.odeint, "solve_ivp": self.solve_ivp}}
