"""Shared by the fit checks: data files, and a simulation whose transport is an uninterpreted function of everything it may depend on."""
import numpy as np
from .maps import interp


class Files:
    """np.loadtxt over symbolic tables"""

    def __init__(self, h):
        self.h = h
        self.tables = {}
        self.opened = []

    def add(self, name, rows):
        self.tables[name] = [list(r) for r in rows]

    def loadtxt(self, fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0,
                **k):
        self.opened.append(fname)
        rows = [list(r) for r in self.tables[fname]]
        if usecols is not None:
            u = [usecols] if isinstance(usecols, int) else list(usecols)
            rows = [[r[i] for i in u] for r in rows]
        a = self.h.arr(rows)
        return a.T if unpack else a

    def stubs(self):
        return {"numpy": {"loadtxt": self.loadtxt, "genfromtxt": self.loadtxt}}


def table(h, tag, n, order, cols, ncol, lo=-5, step=(6, 12)):
    """n measured points in file order `order`; returns (rows, ascending angles, values)"""
    th = [h.real("m%s0" % tag, lo - 5, lo)]
    for i in range(1, n):
        th.append(th[-1] + h.pos("m%s%d" % (tag, i), *step))
    val = [h.pos("r%s%d" % (tag, i)) for i in range(n)]
    rows = []
    for i in order:
        r = [h.real("x%s_%d_%d" % (tag, i, j)) for j in range(ncol)]
        r[cols[0]], r[cols[1]] = th[i], val[i]
        rows.append(r)
    return rows, th, val


def at(x, th, val):
    return interp(x, th, val)


MODEL = "- mu - 2*t*cos(a*kx) - 4*tp*cos(b*ky)"
BAND_KEYS = ("mu", "t", "tp")


class Sim:
    """the fit modules with the two expensive computations replaced

    runBandStructure records the parameters the surface would be computed from; runTransport answers 1/rho = f(everything the
    transport depends on: the recorded parameters, the current ones, field, temperature, scattering rates).
    """

    def __init__(self, h, module="fitting_admr_parallel_multiT", more=None):
        self.h = h
        self.files = Files(h)
        st = self.files.stubs()
        for k, v in (more or {}).items():
            st[k] = dict(st.get(k, {}), **v)
        self.M = h.load(module, st)
        self.f = h.uf("conductivity_zz", "pos")
        self.log = []
        sim = self

        def run_band(band, epsilon=0, printDoping=False, **k):
            band._snap = sim.band_state(band)
            band.n = h.num("0.5")
            band.p = h.num("0.5")
            band.kf = np.zeros((3, 1))

        def run_transport(cond):
            b = cond.bandObject
            if b.kf is None:
                raise TypeError("transport on an erased Fermi surface")
            args = sim.band_state(b) + list(b._snap) + sim.cond_state(cond)
            sim.log.append((b.band_name, args))
            z = sim.f(*args)
            one = h.q(1)
            cond.sigma = h.arr([[one, 0, 0], [0, one, 0], [0, 0, z]])
        self.M.BandStructure.runBandStructure = run_band
        self.M.Conductivity.runTransport = run_transport
        self.M.Conductivity.figParameters = lambda cond, *a, **k: None

        def dope(band, p, **k):
            band["mu"] = sim.doping_mu(p, [band._band_params[x] for x in ("t", "tp")])
            band.erase_Fermi_surface()
        self.M.BandStructure.set_mu_to_doping = dope
        self.dmu = h.uf("mu_of_doping")

    def doping_mu(self, p, others):
        return self.dmu(p, *others)

    def band_state(self, b):
        return [b.a, b.b, b.c, b.energy_scale, b.number_of_bz] + [b._band_params[k] for k in BAND_KEYS]

    def cond_state(self, c):
        return [c.Bamp, c.T, c.Bphi, c.Btheta, c.gamma_0, c.gamma_k, c.power]

    def member(self, tag, **over):
        """a set of parameters for one band; every number symbolic"""
        h = self.h
        d = {"band_name": "band" + tag, "a": h.pos("a" + tag), "b": h.pos("b" + tag), "c": h.pos("c" + tag),
             "energy_scale": h.pos("E" + tag), "number_of_bz": h.pos("nbz" + tag), "band_model": MODEL,
             "band_params": {"mu": h.real("mu" + tag), "t": 1, "tp": h.real("tp" + tag)}, "resolution": [3, 3, 3],
             "Bamp": h.pos("B" + tag, 5, 45), "T": 0, "N_time": 10,
             "scattering_models": ["isotropic", "cos2phi"],
             "scattering_params": {"gamma_0": h.pos("g0" + tag), "gamma_k": h.pos("gk" + tag), "power": h.pos("pw" + tag)}}
        d.update(over)
        return d

    # ----------------------------------------------------------------- specification
    def conductivity(self, d, phi, theta):
        bs = [d["a"], d["b"], d["c"], d["energy_scale"], d["number_of_bz"]] + [d["band_params"][k] for k in BAND_KEYS]
        s = d["scattering_params"]
        return self.f(*(bs + bs + [d["Bamp"], d["T"], phi, theta, s["gamma_0"], s["gamma_k"], s["power"]]))

    def rho(self, bands, phi, theta):
        """bands: list of parameter dictionaries"""
        t = 0
        for d in bands:
            t = t + self.conductivity(d, phi, theta)
        return 1 / t


def put(d, name, x):
    """the specification of a free parameter"""
    if name in d:
        d[name] = x
    elif name in d["band_params"]:
        d["band_params"][name] = x
    else:
        d["scattering_params"][name] = x


def copy(d):
    return {k: copy(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v for k, v in d.items()}


def frozen(d):
    """structural snapshot that keeps the identity of the leaves"""
    if isinstance(d, dict):
        return ("dict", [(k, frozen(v)) for k, v in d.items()])
    if isinstance(d, (list, tuple)):
        return (type(d).__name__, [frozen(v) for v in d])
    return d


def intact(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[0] == b[0] and len(a[1]) == len(b[1]) and all(
            (x[0] == y[0] and intact(x[1], y[1])) if a[0] == "dict" else intact(x, y) for x, y in zip(a[1], b[1]))
    return a is b or (type(a) == type(b) and not hasattr(a, "p") and a == b)
