"""C29 single-temperature fits."""
from .fit import Sim, put, copy, frozen, intact, table, at

BOUNDS = ("both single-temperature fitters; 1-6 azimuths, some of them absent from the data or from the request; polar grids of 2-12 steps "
          "under rounding, cut anywhere; every kind of free parameter; up to 3 candidates in a row including zeros; with and without "
          "adjustment of the doping; both modes")
OUTSIDE = "a cut that leaves fewer than two angles; a maximum that is not a whole number of steps away; lmfit and scipy optimisers"
ASSUMPTIONS = ["surface and transport are arbitrary functions of the parameters the objects hold when they are computed",
               "the doping adjustment sets mu to an arbitrary function of the doping and the band"]

PAR, SER = "fitting_admr_parallel_oneT", "fitting_admr_series_oneT"


class Value:
    def __init__(self, v):
        self.value = v


class Params(dict):
    """stand-in for lmfit.Parameters"""

    def add(self, name, value=None, min=None, max=None, **k):
        self[name] = Value(value)
        self[name].min, self[name].max = min, max


class One:
    def __init__(self, h, which, free=("mu",), norm=True, phis=(0,), asked=None, absent=(), k=2, cut=None, dope=None, eps=None, angles=None, start=None, more=None, **over):
        """phis: azimuths with data, in file order; asked: azimuths of the member; cut: index of the last angle kept, per azimuth"""
        self.h, self.which, self.norm, self.free = h, which, norm, list(free)
        self.S = S = Sim(h, which, dict({"lmfit": {"Parameters": Params}}, **(more or {})))
        asked = list(phis) if asked is None else list(asked)
        self.phis = sorted(p for p in phis if p in asked)
        st = h.pos("st", 1, 5)
        lo = h.q(0) if start is None else start(h, st)
        if eps is not None:
            h.assume(abs(eps) <= st * h.num("0.0000000000001"))
        self.dope = dope = h.num(dope) if isinstance(dope, str) else dope
        self.cut = [k] * len(phis) if cut is None else cut
        self.mem = S.member("_", data_T=10, data_p=h.real("p"), fixdoping=2 if dope is None else dope, Bphi_array=asked,
                            Btheta_min=lo, Btheta_max=lo + st * k + (0 if eps is None else eps), Btheta_step=st, **over)
        keep = min(c for p, c in zip(phis, self.cut) if p in self.phis)
        self.grid = [lo + st * i for i in range(k + 1) if i <= keep]
        self.data, self.tabs = {}, {}
        for i, p in enumerate(phis):
            cols = ((0, 1), (2, 0), (1, 3))[i % 3]
            th = [lo - 1 - h.pos("m0_%s" % p, 0, 5), lo + st * (k + 1) + h.pos("m1_%s" % p, 0, 5)] if angles is None else angles
            if angles == "grid":       # measured at the angles of the fit: keeps the sums small
                th = [lo + st * j for j in range(k + 1)]
            if callable(angles):
                th = angles(lo, st)
            val = [h.pos("r%d_%s" % (j, p)) for j in range(len(th))]
            rows = []
            for j in list(range(1, len(th), 2)) + list(range(0, len(th), 2)):
                r = [h.real("x%s_%d_%d" % (p, j, q)) for q in range(4)]
                r[cols[0]], r[cols[1]] = th[j], val[j]
                rows.append(r)
            S.files.add("f%s" % p, rows)
            c = lo + st * self.cut[i] + (st * h.real("cut%s" % p, 0.1, 0.9, True) if self.cut[i] < k else st * 3)
            self.data[10, p] = ["f%s" % p, cols[0], cols[1], c, h.pos("rho0_%s" % p)]
            self.tabs[p] = (th, val)
            # another temperature, cut shorter, other file, other azimuths
            if i or len(phis) == 1:
                self.data[25, p] = ["nothing", 0, 1, lo, h.pos("other%s" % p)]
        for p in [77] + [p for p in asked if p not in phis]:
            self.data[25, p] = ["nothing", 0, 1, lo, 1]
        self.bd = {n: [h.real("lo" + n), h.real("hi" + n)] for n in self.free}
        self.before = [frozen(x) for x in (self.mem, self.bd, list(self.data.values()))]
        self.cur = copy(self.mem)
        self.build()

    def build(self):
        cls = self.S.M.FittingADMRParallel if self.which == PAR else self.S.M.FittingADMR
        self.obj = cls(self.mem, self.bd, self.data, normalized_data=self.norm)
        return self.obj

    def untouched(self, tag=""):
        for n, x, s in zip(("parameters", "bounds", "data"), (self.mem, self.bd, list(self.data.values())), self.before):
            self.h.true(tag + "the caller's %s are not modified" % n, intact(frozen(x), s))

    def names(self):
        return sorted(self.free)

    def candidate(self, tag, zero=()):
        h = self.h
        pos = ("a", "b", "c", "energy_scale", "gamma_0", "gamma_k", "power", "Bamp", "T")
        return {n: 0 if n in zero else (h.pos if n in pos else h.real)("x%s_%s" % (tag, n)) for n in self.free}

    def order(self):
        """the position of each free parameter in the vector of the optimiser, from the bounds"""
        out = {}
        for n in self.free:
            lo, hi = self.bd[n]
            hit = [i for i, q in enumerate(self.obj.bounds) if q[0] is lo and q[1] is hi or (not self.h.sym and q[0] == lo and q[1] == hi)]
            if len(hit) != 1:
                return None
            out[n] = hit[0]
        return out

    def evaluate(self, cand):
        """the objective of the code; the serial fitter hands the residuals to lmfit, which sums their squares"""
        h = self.h
        if self.which == PAR:
            pos = self.order()
            if pos is None:
                h.fail("bounds", "the bounds %s are not those declared" % (self.obj.bounds,))
            x = [None] * len(cand)
            for n, v in cand.items():
                x[pos[n]] = v
            return self.obj.compute_diff2(h.arr(x))
        for n, v in cand.items():
            if n not in self.obj.pars:
                h.fail("parameters", "%s is not handed to the optimiser" % n)
            self.obj.pars[n].value = v
        return sum(r * r for r in self.obj.compute_diff(self.obj.pars))

    def apply(self, cand):
        for n, v in cand.items():
            put(self.cur, n, v)
        if self.dope is not None:
            self.cur["band_params"]["mu"] = self.S.dmu(self.dope, *[self.cur["band_params"][k] for k in ("t", "tp")])

    def sim(self):
        return [[self.S.rho([self.cur], p, t) for t in self.grid] for p in self.phis]

    def objective(self):
        h, tot = self.h, 0
        for p, row in zip(self.phis, self.sim()):
            th, val = self.tabs[p]
            z = at(h.q(0), th, val)
            r0 = at(h.q(0), self.grid, row)
            for t, s in zip(self.grid, row):
                d = at(t, th, val) / z
                tot = tot + ((d - s / r0) ** 2 if self.norm else ((d * self.data[10, p][4] - s) * 100000) ** 2)
        return tot

    def check_angles(self, tag=""):
        h = self.h
        h.same(tag + "number of angles", tuple(self.obj.Btheta_array.shape), (len(self.grid),))
        for a, b in zip(self.obj.Btheta_array, self.grid):
            h.le(tag + "angles", abs(a - b), h.num("0.000001"))
        h.same(tag + "azimuths", [float(p) for p in self.obj.Bphi_array], [float(p) for p in self.phis])


def value(which, n=2, zero=(), **kw):
    def f(h):
        F = One(h, which, **kw)
        F.untouched("construction: ")
        for i in range(n):
            c = F.candidate(str(i), zero if i == 1 else ())
            F.apply(c)
            h.eq("objective of candidate %d" % i, F.evaluate(c), F.objective())
            F.untouched("candidate %d: " % i)
        F.check_angles()
        h.eq("objective of the last candidate again", F.evaluate(c), F.objective())
        if which == SER:
            for q, b in F.bd.items():
                h.eq("bounds", h.arr([F.obj.pars[q].min, F.obj.pars[q].max]), h.arr(b))
    return f


def anywhere(h, st):
    return h.real("lo", -20, 20)


def after(h, st):
    return h.pos("lo", 0.5, 20)


def before(h, st):
    return -st * h.real("below", 0.2, 0.8, True)


def grids(which, ks, cuts=False):
    def f(h):
        for k in ks:
            h.rounding(True)
            F = One(h, which, k=k, eps=h.real("eps%d" % k, -1e-13, 1e-13), cut=[k - 1] if cuts else None, start=anywhere)
            if which == SER:
                F.obj.load_and_interp_data()
            h.rounding(False)
            F.check_angles()
    return f


def curves(which, norm, n, angles):
    """data curves alone, grid anywhere relative to the measured angles"""
    def f(h):
        th = [h.real("t0", -20, 10)]
        for i in range(1, n):
            th.append(th[-1] + h.pos("t%d" % i, 2, 8))
        F = One(h, which, norm=norm, k=angles - 1, angles=th, start=anywhere)
        if which == SER:
            F.obj.load_and_interp_data()
        vals = F.tabs[0][1]
        z = at(h.q(0), th, vals)
        d = [at(t, th, vals) / z for t in F.grid]
        h.eq("normalised data", F.obj.rzz_data_matrix, h.arr([d]))
        h.eq("absolute data", F.obj.rhozz_data_matrix, h.arr([[x * F.data[10, 0][4] for x in d]]))
    return f


def two_fits(which):
    """two fits built from the same dictionaries are independent"""
    def f(h):
        F = One(h, which, free=("mu", "gamma_0"))
        first = F.obj
        c = F.candidate("0")
        F.apply(c)
        want = F.objective()
        h.eq("first fit", F.evaluate(c), want)
        F.build()
        d = F.candidate("1")
        F.cur = copy(F.mem)
        F.apply(d)
        h.eq("second fit", F.evaluate(d), F.objective())
        F.obj = first
        h.eq("first fit again", F.evaluate(c), want)
        F.untouched()
    return f


KINDS = ["mu", "tp", "gamma_0", "gamma_k", "power", "Bamp", "T", "energy_scale", "a", "b", "c"]


def cases(tier):
    out = []
    for w, s in ((PAR, "par_"), (SER, "ser_")):
        out += [(s + "kind_" + k, value(w, free=(k,), zero=(k,) if k in ("mu", "tp") else (), norm=k != "Bamp")) for k in KINDS]
        out += [(s + "several", value(w, 3, free=("mu", "power", "gamma_0", "Bamp", "tp"), zero=("mu",))),
                (s + "absolute", value(w, angles="grid", norm=False, free=("mu", "gamma_0"), phis=(0, 45))),
                (s + "azimuths", value(w, angles="grid", phis=(45, 0, 15), asked=(15, 45, 30, 0), cut=[2, 2, 2])),
                (s + "azimuths_abs", value(w, angles="grid", norm=False, phis=(45, 0, 15), asked=(15, 45), k=3, cut=[2, 1, 3])),
                (s + "cut_first", value(w, angles="grid", phis=(0, 45), k=3, cut=[1, 3])), (s + "cut_second", value(w, angles="grid", phis=(0, 45), k=3, cut=[3, 2])),
                (s + "azimuths_5", value(w, 1, angles="grid", phis=(200, 0, -45, 45, 30), asked=(45, 0, -45, 20, 200, 30), k=3, cut=[1, 3, 3, 2, 3])),
                (s + "azimuths_6", value(w, 1, angles="grid", norm=False, phis=(0, 15, 30, 45, 60, 75), k=3, cut=[3, 3, 3, 3, 3, 2])),
                (s + "doping", value(w, free=("tp", "gamma_0"), dope="0.24")), (s + "doping_edge", value(w, free=("mu", "c"), dope=-1)),
                (s + "doping_one", value(w, free=("mu",), dope=1)),
                (s + "start_after", value(w, 1, start=after)), (s + "start_before", value(w, 1, start=before)),
                (s + "grid_1", grids(w, (2, 3, 5))), (s + "grid_2", grids(w, (9, 12))), (s + "grid_cut", grids(w, (4, 7), True)),
                (s + "curves_2", curves(w, True, 2, 2)), (s + "curves_3", curves(w, False, 3, 2)), (s + "two_fits", two_fits(w))]
    if tier == "thorough":
        for w, s in ((PAR, "par_"), (SER, "ser_")):
            out += [(s + "pair_%s_%s" % (a, b), value(w, 3, angles="grid", free=(a, b), phis=(0, 45), norm=i % 2 == 0)) for i, a in enumerate(KINDS) for b in KINDS[i + 1:]]
            out += [(s + "grid_3", grids(w, (25, 40))), (s + "curves_33", curves(w, True, 3, 3)), (s + "curves_4", curves(w, False, 4, 2))]
    return out

