"""C35 figures show the computed numbers and leave the computation as it was."""
import numpy as np
from .canvas import Canvas, any_of, near, written, numbers
from .common import set_energy, set_velocity
from .C01 import Q1D
from .maps import Fake, interp
from .C21 import angles
from .fit import frozen, intact, copy
from . import C27, C29

BOUNDS = ("figADMR (1-6 azimuths, 2-4 polar angles, 1-2 bands, any reference angle of the grid or between), figParameters, figOnekft, figOnevft, "
          "figCumulativevft, figdfdE, figScatteringPhi, figScatteringColor (0-2 limits given, 1-2 contours), figDiscretizeFS2D/3D, figMultipleFS2D; "
          "arbitrary surfaces, orbits, rates, energies, cells, windows; the drawing calls are recorded instead of rendered")
OUTSIDE = "colours, markers, layout, the rendering itself; the kz label of figOnekft"
ASSUMPTIONS = ["matplotlib draws what it is given", "np.linspace answers at most 4 points in figures with a fixed mesh"]

CONDUCT = ["sigma", "alpha", "beta", "kft", "vft", "t_o_tau", "tau_tot", "time_array", "dtime", "dtime_array", "time_max", "B_vector", "Bamp", "Btheta",
           "Bphi", "T", "N_time", "N_epsilon", "epsilon_array", "dfdE_cut_percent", "scattering_params", "scattering_models", "rtol", "atol",
           "gamma_tot_max", "gamma_tot_min", "gamma_0", "gamma_k", "power", "bandObject"]
BAND = ["a", "b", "c", "energy_scale", "band_params", "band_name", "resolution", "k_max", "number_of_bz", "march_square", "res_xy_rough", "kf", "vf",
        "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p", "number_of_points_per_kz_list"]
ADMR = ["Btheta_array", "Bphi_array", "rhozz_array", "rzz_array", "Btheta_norm", "Btheta_min", "Btheta_max", "Btheta_step", "total_filling",
        "total_hole_doping", "condObject_list", "band_names"]


def snapshot(o, names):
    out = {}
    for n in names:
        v = getattr(o, n, None)
        out[n] = v.copy() if isinstance(v, (np.ndarray, dict, list)) else v
    return out


def unchanged(h, tag, o, names, before):
    for n in names:
        x, y = before[n], getattr(o, n, None)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            h.eq(tag + n + " left alone", y, x)
        elif isinstance(x, dict):
            h.same(tag + n + " names left alone", sorted(x), sorted(y))
            for k in x:
                h.eq(tag + n + " left alone", y[k], x[k])
        elif isinstance(x, (list, tuple)):
            h.true(tag + n + " left alone", len(x) == len(y) and all(i is j or bool(i == j) for i, j in zip(x, y)))
        else:
            h.true(tag + n + " left alone", x is y or bool(x == y))


def same_shape(a, b):
    return tuple(np.shape(a)) == tuple(np.shape(b))


def matches(h, xs, ys, x, y):
    """condition: a drawn line is the given one, point for point"""
    xs, ys = np.atleast_1d(xs), np.atleast_1d(ys)
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    if xs.shape != x.shape or ys.shape != y.shape:
        return False
    if h.sym:
        from symx import terms as T
        from symx.engine import clear
        cs = []
        for p, q in list(zip(xs.reshape(-1), x.reshape(-1))) + list(zip(ys.reshape(-1), y.reshape(-1))):
            l, r = clear(T.lift(p), T.lift(q))
            cs.append(T.eq0(l - r))
        return T.and_(*cs)
    top = max(np.max(np.abs(x)), 1e-12), max(np.max(np.abs(y)), 1e-300)
    return bool(np.allclose(xs, x, rtol=1e-6, atol=1e-9 * top[0]) and np.allclose(ys, y, rtol=1e-6, atol=1e-9 * top[1]))


def drawn(h, label, canvas, x, y, about=None, on=None):
    """some curve (with this label text) is (x, y)"""
    cs = canvas.curves(on=on)
    if about is not None:
        cs = [c for c in cs if about(c[2])]
    h.true(label, any_of(h, [matches(h, c[0], c[1], x, y) for c in cs]))


def few(h, n=4):
    """a linspace with few points (same ends), for figures that fix their mesh"""
    real = h.np.linspace

    def linspace(lo, hi, num=50, *a, **k):
        return real(lo, hi, num if num <= 9 else n, *a, **k)
    return {"numpy": {"linspace": linspace}}


# ---------------------------------------------------------------- ADMR
def admr(nb, phis, nth, tmin=0, save=True, rest=True):
    def f(h):
        cv = Canvas((h.real("xmin"), h.real("xmax"), h.real("ymin"), h.real("ymax")))
        C = h.load("conductivity", cv.stubs())
        ths = angles(h, nth)
        fakes = [Fake(h, "ab"[i], "diag", world=C, T=0) for i in range(nb)]
        A = h.world.load("cuprates_transport.admr")
        pages = []
        for fk in fakes:
            fk.cond.T = 0
            page = cv.new("page")
            pages.append(page)
            fk.cond.figParameters = lambda fig_show=True, page=page: page
        norm = ths[0] if tmin == 0 else ths[-1] if tmin == 1 else h.real("norm", 0.0, 90.0)
        adm = A.ADMR([fk.cond for fk in fakes], Bphi_array=phis, show_progress=False, Btheta_norm=norm)
        adm.Btheta_array = h.arr(ths)
        if tmin == 2:
            h.assume(norm >= ths[0])
            h.assume(norm <= ths[-1])
        adm.runADMR()
        b0 = snapshot(adm, ADMR)
        cv.clear()
        adm.figADMR(fig_show=False, fig_save=save, folder="somewhere", filename="name.pdf")
        unchanged(h, "", adm, ADMR, b0)
        cs = [c for c in cv.curves() if len(np.atleast_1d(c[0])) == nth and c[2].name != "axhline"]
        h.same("one curve per azimuth", len(cs), len(phis))
        for i, p in enumerate(phis):
            mine = [c for c in cs if [v for v in numbers(h, str(c[2].k.get("label", ""))) if bool(near(h, v, h.num(str(p)), 0.5))]]
            h.same("the azimuth labels one curve", len(mine), 1)
            for c in mine:
                h.eq("angles drawn", c[0], h.arr(ths))
                h.eq("normalised resistivity drawn", c[1], adm.rzz_array[i, :])
        written(h, "field written", cv.texts(), fakes[0].cond.Bamp, 0.5, "B")
        written(h, "temperature written", cv.texts(), fakes[0].cond.T, 0.5, "T")
        # the right-hand axis: resistivity of the first azimuth in milliohm centimetre
        ref = interp(norm, ths, [adm.rhozz_array[0, j] for j in range(nth)])
        lims = [d for d in cv.get("set_ylim") if len(d.a) == 2]
        h.same("right-hand axis", len(lims), 1)
        for d in lims:
            h.eq("right-hand axis", h.arr(list(d.a)), h.arr([cv.limits[2] * ref * 100000, cv.limits[3] * ref * 100000]))
        if save:
            pdf = cv.get("PdfPages")
            h.same("one file", [str(d.a[0]) for d in pdf], ["somewhere/name.pdf"])
            figs = [d.out[0] for d in cv.get("subplots")]
            saved = [d.a[0] for d in cv.get("savefig")]
            h.true("every page saved once", len(saved) == 1 + nb and all(any(s is x for s in saved) for x in figs + pages))
            h.true("file closed last", [d.name for d in cv.log if d.on is not None and d.on._n.startswith("PdfPages")][-1:] == ["close"])
        else:
            h.same("no file", len(cv.get("PdfPages", "savefig")), 0)
    return f


# ---------------------------------------------------------------- transport figures
class Bench:
    """a Conductivity with arbitrary orbits on an arbitrary surface"""

    def __init__(self, h, N=2, L=3, contours=1, stubs=None, T=0):
        self.h = h
        self.cv = Canvas()
        self.asked = []
        verts = [h.arr([[h.real("u%d%d" % (c, i), 0, 2), h.real("w%d%d" % (c, i), 0, 2)] for i in range(2 + c)]) for c in range(contours)]
        self.verts = verts

        def find_contours(img, level=None, **k):
            self.asked.append((img, level))
            return [v.copy() for v in verts]
        st = dict(self.cv.stubs())
        st["skimage.measure"] = {"find_contours": find_contours}
        st.update(stubs or {})
        C = h.load("conductivity", st)
        bs = h.world.load("cuprates_transport.bandstructure")
        self.p = {k: h.real("p_" + k) for k in ("t", "Tb", "z1", "A2", "mu")}
        self.K = [h.pos("Kx"), h.pos("Ky"), h.pos("Kz")]
        band = bs.BandStructure(h.pos("a"), h.pos("b"), h.pos("c"), h.pos("E"), band_params=dict(self.p), band_model=Q1D, parallel=False,
                                resolution=[3, 3, 3], k_max=list(self.K), number_of_bz=h.pos("Z"), band_name="Nb", march_square=True)
        self.energy = h.uf("eps")
        self.V = [h.uf("v" + d) for d in "xyz"]
        set_energy(band, self.energy)
        set_velocity(band, self.V)
        band.kf, band.vf = h.reals("kf", (3, N)), h.reals("vf", (3, N))
        band.dkf, band.dos_k, band.dks, band.dkz = (h.reals(n, N, pos=True) for n in ("dkf", "dos", "dks", "dkz"))
        band.n, band.p = h.real("n"), h.real("p")
        band.dos_epsilon, band.mass = h.real("dose"), h.real("mass")
        self.band = band
        self.s = {"gamma_0": h.pos("gamma_0"), "gamma_k": h.pos("gamma_k"), "power": 12}
        self.c = c = C.Conductivity(band, h.real("B", 5, 45), h.real("phi", 0, 90), h.real("theta", 0, 90), scattering_models=["isotropic", "cos2phi"],
                                    scattering_params=dict(self.s), T=T, N_time=L)
        c.kft, c.vft, c.t_o_tau = h.reals("kft", (3, N, L)), h.reals("vft", (3, N, L)), h.reals("tot", (N, L), pos=True)
        c.tau_tot = h.reals("tau", (N, L), pos=True)
        c.time_array = h.reals("time", L)
        c.sigma, c.alpha, c.beta = (h.reals(n, (3, 3)) for n in ("sigma", "alpha", "beta"))
        c.gamma_tot_max, c.gamma_tot_min = h.pos("gmax"), h.pos("gmin")
        self.tau = tau = h.uf("tau", "pos")
        c.tau_tot_func = lambda kx, ky, kz, vx, vy, vz, epsilon=0: tau(kx, ky, kz, vx, vy, vz, epsilon)
        self.names = CONDUCT

    def run(self, name, *a, **k):
        h = self.h
        keep = [n for n in BAND]
        if name == "figMultipleFS2D":
            keep = [n for n in BAND if n not in ("n", "p")]     # this figure recounts the states
        b0, c0 = snapshot(self.band, keep), snapshot(self.c, self.names)
        self.cv.clear()
        out = getattr(self.c if hasattr(self.c, name) else self.band, name)(*a, **k)
        unchanged(h, "band: ", self.band, keep, b0)
        unchanged(h, "transport: ", self.c, self.names, c0)
        return out

    def contours(self, label, planes):
        """the energies drawn are the band energies of the mesh drawn, at zero, in these planes"""
        h, b = self.h, self.band
        ds = self.cv.get("contour", "contourf")
        h.same(label + ": contours", len(ds), len(planes))
        for d, kz in zip(ds, planes):
            x, y, e = d.a[:3]
            lev = d.a[3] if len(d.a) > 3 else d.k.get("levels")
            h.true(label + ": level", any_of(h, [bool(np.size(lev) == 1)]))
            h.eq(label + ": level zero", h.arr(list(np.atleast_1d(lev))), h.arr([0] * np.size(lev)))
            x, y = np.asarray(x), np.asarray(y)
            if np.ndim(x) == 1:
                x, y = [m.T for m in np.meshgrid(x, y)] if np.shape(e) == (len(x), len(y)) and False else np.meshgrid(x, y)
            h.eq(label + ": energies", e, self.energy(h.arr(x) / b.a, h.arr(y) / b.b, kz + 0 * h.arr(x)))


def orbit(h):
    w = Bench(h)
    for i in (0, 1, -1):
        w.run("figOnekft", i, 3) if i else w.run("figOnekft", meshXY=3)
        k, b = w.c.kft, w.band
        drawn(h, "orbit", w.cv, k[0, i, :] * b.a, k[1, i, :] * b.b)
        drawn(h, "start", w.cv, h.arr([b.kf[0, i] * b.a]), h.arr([b.kf[1, i] * b.b]))
        drawn(h, "end", w.cv, h.arr([k[0, i, -1] * b.a]), h.arr([k[1, i, -1] * b.b]))
        w.contours("orbit", [-2 * h.pi / b.c])


def velocity(h):
    w = Bench(h)
    for i in (0, 1, -1):
        w.run("figOnevft", i) if i else w.run("figOnevft")
        drawn(h, "velocity", w.cv, w.c.time_array, w.c.vft[2, i, :])
    for i in (0, 1, -1):
        w.run("figCumulativevft", i) if i >= 0 else w.run("figCumulativevft")
        s, ys = 0, []
        for j in range(3):
            s = s + w.c.vft[2, i, j] * h.np.exp(-w.c.t_o_tau[i, j])
            ys.append(s)
        drawn(h, "cumulated velocity", w.cv, w.c.time_array, h.arr(ys))


def dfde(h):
    w = Bench(h, T=h.num("7"))
    c = w.c
    w.run("figdfdE")
    e = c.epsilon_array
    cut = e[-1]
    lines = [q for q in w.cv.curves() if np.size(q[0]) > 2]
    h.same("one line", len(lines), 1)
    for x, y, d in lines:
        h.eq("weight drawn", y, h.arr([-c.dfdE(v) for v in x]))
        h.true("window inside the plot", (x[0] <= e[0]) & (x[-1] >= e[-1]) if h.sym else bool(x[0] <= e[0] and x[-1] >= e[-1]))
    for s in (1, -1):
        drawn(h, "cut", w.cv, h.arr([s * cut]), h.arr([-c.dfdE(s * cut)]))


def rates(w, kz, mesh, window):
    """momenta and rates along each contour of the stand-in"""
    h, b = w.h, w.band
    out = []
    for v in w.verts:
        kx = [(v[i, 0] / (mesh - 1) - h.q(1, 2)) * 2 * window[0] / b.a for i in range(len(v))]
        ky = [(v[i, 1] / (mesh - 1) - h.q(1, 2)) * 2 * window[1] / b.b for i in range(len(v))]
        V = [[f(kx[i], ky[i], kz) for i in range(len(v))] for f in w.V]
        g = [1 / w.tau(kx[i], ky[i], kz, V[0][i], V[1][i], V[2][i], 0) for i in range(len(v))]
        out.append((h.arr(kx), h.arr(ky), h.arr(V[2]), h.arr(g)))
    return out


def asked(w, label, kz, mesh, window):
    h, b = w.h, w.band
    h.same(label + ": one search", len(w.asked), 1)
    img, lev = w.asked[-1]
    h.eq(label + ": level", lev, 0)
    if np.shape(img) == (mesh, mesh):
        kx = [(h.q(2 * i, mesh - 1) - 1) * window[0] / b.a for i in range(mesh)]
        ky = [(h.q(2 * i, mesh - 1) - 1) * window[1] / b.b for i in range(mesh)]
        h.eq(label + ": energies searched", img, h.arr([[w.energy(x, y, kz) for y in ky] for x in kx]))


def scattering_phi(ncont, given):
    def f(h):
        w = Bench(h, contours=ncont)
        kz = h.real("kz") if given else 0
        w.asked.clear()
        w.run("figScatteringPhi", kz, 3) if given else w.run("figScatteringPhi", mesh_xy=3)
        pi = (h.pi, h.pi)
        asked(w, "rates", kz, 3, pi)
        for kx, ky, vz, g in rates(w, kz, 3, pi):
            phi = h.np.rad2deg(h.np.arctan2(ky, kx))
            drawn(h, "rate against azimuth", w.cv, phi, g)
            drawn(h, "velocity against azimuth", w.cv, phi, vz)
    return f


def segments(w, label, rs, lo, hi):
    """each contour is a coloured line: its points, its rates, one common colour range"""
    h, b = w.h, w.band
    lcs = w.cv.get("LineCollection")
    h.same(label + ": one line per contour", len(lcs), len(rs))
    h.true(label + ": all added", all(any(d.a[0] is l.out for d in w.cv.get("add_collection")) for l in lcs))
    for l, (kx, ky, vz, g) in zip(lcs, rs):
        s = l.a[0] if l.a else l.k["segments"]
        n = len(kx)
        h.same(label + ": segments", tuple(np.shape(s)), (n - 1, 2, 2))
        for i in range(n - 1):
            h.eq(label + ": ends", h.arr([s[i][0][0], s[i][0][1], s[i][1][0], s[i][1][1]]),
                 h.arr([kx[i] * b.a, ky[i] * b.b, kx[i + 1] * b.a, ky[i + 1] * b.b]))
        arr = [d.a[0] for d in w.cv.get("set_array", on=l.out)]
        if not arr and "array" in l.k:
            arr = [l.k["array"]]
        h.same(label + ": coloured", len(arr), 1)
        for x in arr:
            h.eq(label + ": rates", x, g)
        lims = [d for d in w.cv.get("set_clim", on=l.out)]
        h.true(label + ": colour range set", bool(lims))
        for d in lims[-1:]:
            got = list(d.a) + [d.k[k] for k in ("vmin", "vmax") if k in d.k]
            if len(got) == 1 and isinstance(got[0], (tuple, list)):
                got = list(got[0])
            h.true(label + ": both ends of the range", len(got) == 2 and all(x is not None for x in got))
            if len(got) == 2 and all(x is not None for x in got):
                h.eq(label + ": colour range", h.arr(got), h.arr([lo, hi]))


def extreme(h, vals, top):
    m = vals[0]
    for v in vals[1:]:
        m = h.np.maximum(m, v) if top else h.np.minimum(m, v)
    return m


def scattering_color(ncont, lo, hi):
    def f(h):
        w = Bench(h, contours=ncont)
        kz = h.real("kz") if lo else 0
        w.asked.clear()
        args = {"mesh_xy": 3}
        if lo:
            args["kz"], args["gamma_min"] = kz, h.real("g_lo", 0, 1)
        if hi:
            args["gamma_max"] = h.real("g_hi", 1, 9)
        w.run("figScatteringColor", **args)
        pi = (h.pi, h.pi)
        asked(w, "colours", kz, 3, pi)
        rs = rates(w, kz, 3, pi)
        every = [g for r in rs for g in r[3]]
        segments(w, "colours", rs, args.get("gamma_min", extreme(h, every, False)), args.get("gamma_max", extreme(h, every, True)))
    return f


def parameters(ncont, show):
    def f(h):
        w = Bench(h, contours=ncont, stubs=few(h))
        b = w.band
        w.asked.clear()
        fig = w.run("figParameters", fig_show=show) if not show else w.run("figParameters")
        h.true("the figure is returned", any(fig is d.out[0] for d in w.cv.get("subplots")) or any(fig is d.out for d in w.cv.get("figure")))
        h.same("shown", bool(w.cv.get("show")), show)
        tabs = w.cv.get("table")
        h.same("one table", len(tabs), 1)
        rows = {str(r[0]): r[1] for r in tabs[0].k["cellText"]}
        want = {"band name": "Nb", "a": b.a, "b": b.b, "c": b.c, "energy scale": b.energy_scale, "# of BZ": b.number_of_bz}
        want.update(w.p)
        want.update(w.s)
        h.same("rows", sorted(rows), sorted(want))
        for k in want:
            if k not in rows:
                continue
            if isinstance(want[k], str):
                h.same("row " + k, rows[k], want[k])
            elif isinstance(rows[k], str):
                written(h, "row", [rows[k]], want[k], 1e-2)
            else:
                h.eq("row", rows[k], want[k])
        w.contours("parameters", [0, h.pi / b.c, 2 * h.pi / b.c])
        pi = (h.pi, h.pi)
        asked(w, "rates", 0, 201, pi)
        rs = rates(w, 0, 201, pi)
        every = [g for r in rs for g in r[3]]
        segments(w, "rates", rs, extreme(h, every, False), extreme(h, every, True))
    return f


# ---------------------------------------------------------------- band figures
def surface_2d(counts):
    def f(h):
        N = sum(counts)
        w = Bench(h, N=N)
        b = w.band
        b.number_of_points_per_kz_list = list(counts)
        kz = [-w.K[2] / b.c, 0, w.K[2] / b.c] if len(counts) == 3 else [-w.K[2] / b.c, w.K[2] / b.c]
        plane = [z for z, n in zip(kz, counts) for _ in range(n)]
        b.kf = h.arr([list(b.kf[0]), list(b.kf[1]), plane])
        w.run("figDiscretizeFS2D", meshXY=3)
        top = w.K[2] / b.c
        w.contours("surface", [top])
        idx = list(range(N - counts[-1], N))
        sel = lambda row, s: h.arr([row[i] * s for i in idx])
        if idx:
            drawn(h, "points of the plane", w.cv, sel(b.kf[0], b.a), sel(b.kf[1], b.b))
        q = w.cv.get("quiver")
        h.same("arrows", len(q), 1)
        for d in q:
            h.same("arrows count", len(np.atleast_1d(d.a[0])), len(idx))
            if idx and len(np.atleast_1d(d.a[0])) == len(idx):
                for got, want in zip(d.a, (sel(b.kf[0], b.a), sel(b.kf[1], b.b), sel(b.vf[0], 1), sel(b.vf[1], 1))):
                    h.eq("arrows", got, want)
    return f


def surface_3d(scale):
    def f(h):
        w = Bench(h)
        b = w.band
        if scale:
            b.vf = h.reals("vp", (3, 2), pos=True)
            w.run("figDiscretizeFS3D", scale_velocities=h.pos("len", 1, 3))
        else:
            w.run("figDiscretizeFS3D")
        sc = [d for d in w.cv.get("scatter", "scatter3D", "plot") if len(d.a) >= 3 and np.size(d.a[0]) == 2 and d.name != "plot"]
        h.same("points", len(sc), 1)
        P = [b.kf[0] * b.a, b.kf[1] * b.b, b.kf[2] * b.c]
        for d in sc:
            for got, want in zip(d.a, P):
                h.eq("points", got, want)
        for d in w.cv.get("set_xlabel", "set_ylabel", "set_zlabel"):
            h.true("axis named", {ch for ch in str(d.a[0]) if ch in "xyz"} == {d.name[4]})
        q = w.cv.get("quiver")
        h.same("arrows", len(q), 1 if scale else 0)
        for d in q:
            for got, want in zip(d.a[:3], P):
                h.eq("arrows start at the points", got, want)
            u = d.a[3:6]
            m = extreme(h, list(b.vf.reshape(-1)), True)
            for got, want in zip(u, b.vf):
                h.eq("arrows along the velocities", got * m, want)
    return f


def planes(h):
    w = Bench(h)
    b = w.band
    real = b.dispersion_grid
    b.dispersion_grid = lambda resolution: real([min(resolution[0], 2), min(resolution[1], 2), min(resolution[2], 5)])
    b.res_xy_rough = 3
    w.run("figMultipleFS2D")
    w.contours("planes", [0, w.K[2] / b.c / 2, w.K[2] / b.c])
    p = b.doping_per_kz(2, 2, 5)[1]
    for j in (2, 3, 4):
        vals = [v for d in w.cv.get("text") for t in d.a[2:3] if not isinstance(t, str) for v in [t]]
        vals += [v for d in w.cv.get("text") for t in d.a[2:3] if isinstance(t, str) and "k_" not in t and "p_" not in t for v in numbers(h, t)]
        h.true("doping of the plane", any_of(h, [near(h, v, p[j], 0.001) for v in vals]))
    written(h, "total doping", w.cv.texts(), b.doping(), 0.001, "p_")


# ---------------------------------------------------------------- fits
def at_least(h, label, cv, phi, x, y, others=()):
    """the curve labelled with the azimuth is (x, y)"""
    mine = [c for c in cv.curves() if c[2].k.get("label") is not None and any(bool(near(h, v, h.num(str(phi)), 0.01)) for v in numbers(h, str(c[2].k["label"])))]
    h.same(label + ": the azimuth labels one curve", len(mine), 1)
    for c in mine:
        h.true(label + ": data drawn", matches(h, c[0], c[1], x, y))


def pages_saved(h, cv, name, pages):
    pdf = cv.get("PdfPages")
    h.same("one file", [str(d.a[0]) for d in pdf], [name])
    saved = [d.a[0] for d in cv.get("savefig")]
    want = [d.out[0] for d in cv.get("subplots")] + pages
    h.true("every page saved once", len(saved) == len(want) and all(any(s is x for s in saved) for x in want))
    h.true("file closed last", [d.name for d in cv.log if d.on is not None and d.on._n.startswith("PdfPages")][-1:] == ["close"])


FIT = ["member", "Bphi_array", "Btheta_array", "rzz_data_matrix", "rhozz_data_matrix", "normalized_data", "data_dict", "bounds_dict", "ranges_dict"]


def fit_one(which, norm, phis=(0, 45), save=True, twice=False, cut=None, go=True):
    def f(h):
        cv = Canvas()
        F = C29.One(h, which, free=("mu", "gamma_0"), norm=norm, phis=phis, k=2, cut=cut, angles=lambda lo, st: [h.num("-5"), st * h.q(1, 2), st * h.q(3, 2), st * 9],
                    more=cv.stubs())
        page = cv.new("page")
        F.S.M.Conductivity.figParameters = lambda cond, fig_show=True, **k: page
        for i in range(2 if twice else 1):
            c = F.candidate(str(i))
            F.apply(c)
            if go:
                F.evaluate(c)
            else:
                F.cur = copy(F.mem)
            # measurements beyond the last angle of the fit are not shown
            last = F.grid[-1]
            b0 = {n: frozen(getattr(F.obj, n)) for n in FIT if getattr(F.obj, n, None) is not None and not isinstance(getattr(F.obj, n), np.ndarray)}
            b1 = snapshot(F.obj, [n for n in FIT if isinstance(getattr(F.obj, n, None), np.ndarray)])
            cv.clear()
            F.obj.fig_compare(fig_show=False, fig_save=save, figname="name")
            for n, x in b0.items():
                h.true(n + " left alone", intact(frozen(getattr(F.obj, n)), x))
            unchanged(h, "", F.obj, list(b1), b1)
            u = 1 if norm else 100000
            sim = F.sim()
            for p, row in zip(F.phis, sim):
                th, val = F.tabs[p]
                keep = [j for j in range(len(th)) if bool(th[j] <= last)]
                z = interp(h.q(0), th, val) / (1 if norm else F.data[10, p][4])
                at_least(h, "data", cv, p, h.arr([th[j] for j in keep]), h.arr([val[j] / z * u for j in keep]))
                r0 = interp(h.q(0), F.grid, row) if norm else 1
                drawn(h, "simulation", cv, h.arr(F.grid), h.arr([s / r0 * u for s in row]))
            h.same("curves", len([c for c in cv.curves() if c[2].name == "plot"]), 2 * len(F.phis))
            written(h, "field written", cv.texts(), F.mem["Bamp"], 1e-6, "B")
            written(h, "doping of the data written", cv.texts(), F.mem["data_p"], 0.01, "data")
            if save:
                pages_saved(h, cv, F.obj.folder + "/name.pdf" if F.obj.folder else "name.pdf", [page])
            else:
                h.same("no file", len(cv.get("PdfPages", "savefig")), 0)
        F.untouched()
        if not go:
            return
        d = F.candidate("after")
        F.apply(d)
        h.eq("the fit goes on", F.evaluate(d), F.objective())
    return f


def fit_multi(norm, Ts, phis=(0, 45), save=True):
    def f(h):
        cv = Canvas()
        F = C27.Fit(h, Ts, ["A"], [(Ts[0], "A", "mu"), ("all", "A", "gamma_0")], normalized=norm, phis=phis, more=cv.stubs())
        page = cv.new("page")
        F.S.M.Conductivity.figParameters = lambda cond, fig_show=True, **k: page
        x, vals = F.candidate("0")
        F.obj.compute_fitness(x)
        F.apply(vals)
        b = {n: snapshot_dict(getattr(F.obj, n)) for n in ("rzz_sim_dict", "rhozz_sim_dict", "rzz_data_dict", "rhozz_data_dict", "thetas_dict", "phis_dict")}
        cv.clear()
        F.obj.fig_compare(fig_show=False, fig_save=save, folder="there", figname="name")
        for n, d in b.items():
            for T, v in d.items():
                h.eq(n + " left alone", getattr(F.obj, n)[T], v)
        u = 1 if norm else 100000
        axes = [d.out[1] for d in cv.get("subplots")]
        h.same("one figure per temperature", len(axes), len(Ts))
        for T in Ts:
            sim = F.sim(T)
            ref = F.normalise(T, sim) if norm else sim
            mine = [a for a in axes if any(c[0].shape == (len(F.grid[T]),) for c in cv.curves(on=a))]
            h.same("figure of the temperature", len(mine), 1)
            for a in mine:
                cs = cv.curves(on=a)
                h.same("curves", len(cs), 2 * len(phis))
                for i, p in enumerate(phis):
                    data = [c for c in cs if c[2].k.get("label") is not None and
                            any(bool(near(h, v, h.num(str(p)), 0.01)) for v in numbers(h, str(c[2].k["label"])))]
                    h.same("the azimuth labels one curve", len(data), 1)
                    for c in data:
                        h.true("data drawn", matches(h, c[0], c[1], h.arr(F.grid[T]), h.arr([v * u for v in F.measured(T)[i]])))
                    drawn(h, "simulation drawn", cv, h.arr(F.grid[T]), h.arr([v * u for v in ref[i]]), on=a)
                fig = [d.out[0] for d in cv.get("subplots") if d.out[1] is a][0]
                written(h, "temperature written", [t for d in cv.log if d.on is fig or d.on is a for t in list(d.a) if isinstance(t, str)], h.q(T), 0.01, "T")
        if save:
            pages_saved(h, cv, "there/name.pdf", [page] * len(Ts))
        else:
            h.same("no file", len(cv.get("PdfPages", "savefig")), 0)
        F.untouched()
        h.eq("the objective again", F.obj.compute_fitness(x), F.objective())
    return f


def snapshot_dict(d):
    return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in d.items()}


def cases(tier):
    out = [("orbit", orbit), ("velocity", velocity), ("dfde", dfde), ("planes", planes),
           ("surface_2d_equal", surface_2d([2, 1, 2])), ("surface_2d_unequal", surface_2d([1, 2])), ("surface_2d_empty", surface_2d([2, 2, 0])),
           ("surface_3d", surface_3d(False)), ("surface_3d_arrows", surface_3d(True)),
           ("phi_1", scattering_phi(1, False)), ("phi_2", scattering_phi(2, True)),
           ("color_1", scattering_color(1, False, False)), ("color_2", scattering_color(2, False, False)),
           ("color_lo", scattering_color(1, True, False)), ("color_hi", scattering_color(2, False, True)), ("color_both", scattering_color(1, True, True)),
           ("parameters_1", parameters(1, False)), ("parameters_2", parameters(2, True)),
           ("admr_1", admr(1, [0], 3)), ("admr_2", admr(2, [0, 45], 2, save=False)), ("admr_last", admr(1, [15, 0, 30], 2, 1)),
           ("admr_between", admr(1, [22.5, -22.5, 200], 3, 2)), ("admr_five", admr(1, [0, 15, 30, 45, 60], 2)), ("admr_many", admr(1, [0, 15, 30, 45, 60, 75], 2))]
    seven = (0, 15, 30, 45, 60, 75, 90)
    for w, s in ((C29.PAR, "par_"), (C29.SER, "ser_")):
        out += [(s + "norm", fit_one(w, True)), (s + "abs", fit_one(w, False, save=False)), (s + "seven", fit_one(w, True, seven, go=False)),
                (s + "order", fit_one(w, False, (45, 0), twice=True)), (s + "cut", fit_one(w, True, (0, 45), cut=[2, 1]))]
    out += [("multi_norm", fit_multi(True, [10, 25])), ("multi_abs", fit_multi(False, [10, 25], save=False)), ("multi_seven", fit_multi(False, [10], seven)),
            ("multi_three", fit_multi(True, [4, 10, 25], (15,)))]
    return out
