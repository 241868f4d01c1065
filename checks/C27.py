"""C27 routing of free parameters in the multi-temperature fit."""
import numpy as np
from .fit import Sim, put, copy, frozen, intact, table, at

BOUNDS = ("1-3 temperatures, 1-3 bands, up to 7 free parameters of every kind (band, scattering, lattice, energy scale, field, "
          "temperature), declared per temperature or for all; up to 3 candidates in a row, any values including zero; bounds of any value")
OUTSIDE = "free parameters that no dictionary of the temperature defines"
ASSUMPTIONS = ["surface and transport are arbitrary functions of the parameters the objects hold when they are computed"]


class Fit:
    def __init__(self, h, Ts, bands, free, normalized=False, ngrid=2, phis=(0,), **kw):
        """free: list of (T or 'all', band, name)"""
        self.h, self.Ts, self.bands, self.free = h, Ts, bands, free
        self.S = S = Sim(h, **kw)
        self.params = {T: {b: S.member("_%s_%s" % (T, b)) for b in bands} for T in Ts}
        self.data, self.tabs, self.grid = {}, {}, {}
        self.norm = normalized
        self.ref = {}
        for i, T in enumerate(Ts):
            lo, st = h.real("lo_%s" % T, 0, 5), h.pos("st_%s" % T, 1, 5)
            self.grid[T] = [lo + st * k for k in range(ngrid + i)]
            self.ref[T] = self.grid[T][(i + 1) % len(self.grid[T])]
            for p in phis:
                th = [lo - 1, lo + st * (ngrid + i)]
                val = [h.pos("d_%s_%s_%d" % (T, p, k)) for k in range(2)]
                S.files.add("f_%s_%s" % (T, p), [[th[1], val[1]], [th[0], val[0]]])
                sc = h.pos("sc_%s_%s" % (T, p))
                self.data[T, p] = ["f_%s_%s" % (T, p), 0, 1, lo, self.grid[T][-1], st, self.ref[T], sc]
                self.tabs[T, p] = (th, val, sc)
        self.phis = list(phis)
        self.bd = {}
        for T, b, n in free:
            self.bd.setdefault(T, {}).setdefault(b, {})[n] = [h.real("lob_%s_%s_%s" % (T, b, n)), h.real("hib_%s_%s_%s" % (T, b, n))]
        if list(self.bd) != ["all"]:        # otherwise every temperature of the parameters takes part
            for T in Ts:
                self.bd.setdefault(T, {})
        self.before = [frozen(self.params), frozen(self.bd), frozen(self.data)]
        self.obj = S.M.Fitness(self.data, self.params, self.bd, normalized_data=normalized)
        self.cur = copy(self.params)
        self.reversed_field = False

    def untouched(self, tag=""):
        for name, d, s in zip(("parameters", "bounds", "data"), (self.params, self.bd, self.data), self.before):
            self.h.true(tag + "the caller's %s are not modified" % name, intact(frozen(d), s))

    def labels(self):
        return [tuple(l) for l in self.obj.free_params_labels]

    def order(self):
        """position of each free parameter in the vector of the optimiser, from the bounds"""
        out = []
        for (T, b, n) in self.free:
            lo, hi = self.bd[T][b][n]
            hit = [i for i, q in enumerate(self.obj.bounds) if q[0] is lo and q[1] is hi or (not self.h.sym and q[0] == lo and q[1] == hi)]
            if len(hit) != 1:
                return None
            out.append(hit[0])
        return out

    def candidate(self, tag, zero=()):
        """(vector for the optimiser, value per free parameter)"""
        h = self.h
        vals = [0 if i in zero else (h.pos if f[2] in ("a", "b", "c", "energy_scale", "gamma_0", "gamma_k", "power", "T", "number_of_bz") or f[2] == "Bamp" and not self.reversed_field else h.real)
                ("x%s_%d" % (tag, i)) for i, f in enumerate(self.free)]
        pos = self.order()
        x = [None] * len(vals)
        for v, p in zip(vals, pos):
            x[p] = v
        return h.arr(x), vals

    def apply(self, vals):
        for (T, b, n), v in zip(self.free, vals):
            for t in (self.Ts if T == "all" else [T]):
                put(self.cur[t][b], n, v)

    # specification of the simulation and of the objective
    def sim(self, T):
        return [[self.S.rho([self.cur[T][b] for b in self.bands], p, th) for th in self.grid[T]] for p in self.phis]

    def normalise(self, T, rows):
        i = [k for k, g in enumerate(self.grid[T]) if g is self.ref[T]][0]
        return [[x / r[i] for x in r] for r in rows]

    def measured(self, T):
        out = []
        for p in self.phis:
            th, val, sc = self.tabs[T, p]
            v = [at(x, th, val) for x in self.grid[T]]
            n = at(self.ref[T], th, val)
            out.append([x / n for x in v] if self.norm else [x * sc for x in v])
        return out

    def objective(self):
        tot = 0
        for T in self.Ts:
            s = self.sim(T)
            if self.norm:
                s = self.normalise(T, s)
            d = self.measured(T)
            for r1, r2 in zip(d, s):
                for a, b in zip(r1, r2):
                    tot = tot + (a - b) ** 2
        return tot

    def check_sims(self, tag=""):
        for T in self.Ts:
            self.h.eq(tag + "simulation uses the candidate", self.obj.rhozz_sim_dict[T], self.h.arr(self.sim(T)))


def routing(Ts, bands, free, cands=2, zeros=True):
    def f(h):
        F = Fit(h, Ts, bands, free)
        h.same("one bound per free parameter", len(F.obj.bounds), len(free))
        if F.order() is None:
            return h.fail("bounds", "the bounds %s are not those declared" % (F.obj.bounds,))
        F.untouched("construction: ")
        F.obj.compute_fitness()
        F.check_sims("initial: ")
        for k in range(cands):
            z = set(i for i, q in enumerate(free) if zeros and k == 1 and q[2] in ("mu", "tp", "gamma_0"))
            x, vals = F.candidate(str(k), z)
            keep = list(x)
            F.obj.compute_fitness(x)
            F.apply(vals)
            F.check_sims("candidate %d: " % k)
            F.untouched("candidate %d: " % k)
            h.eq("vector not modified", x, h.arr(keep))
        # update_parameters without a simulation, as at the end of a fit
        x, vals = F.candidate("end")
        F.obj.update_parameters(x)
        F.apply(vals)
        F.obj.compute_fitness()
        F.check_sims("final: ")
    return f


def reversed_field(h):
    """any sign of the candidate field, the cell and the hopping: the value is taken as it comes"""
    F = Fit(h, [10, 25], ["A"], [("all", "A", "Bamp"), (10, "A", "tp"), (25, "A", "mu")])
    F.reversed_field = True
    for k in range(2):
        x, vals = F.candidate(str(k))
        F.obj.compute_fitness(x)
        F.apply(vals)
        F.check_sims("candidate %d: " % k)
    F.untouched()


def two_fits(h):
    """two fits built from the same dictionaries are independent"""
    free = [(10, "A", "mu"), ("all", "A", "gamma_0")]
    F = Fit(h, [10, 25], ["A"], free)
    G = F.S.M.Fitness(F.data, F.params, F.bd, normalized_data=False)
    x, vals = F.candidate("0")
    F.obj.compute_fitness(x)
    G.compute_fitness()
    for T in (10, 25):
        h.eq("other fit", G.rhozz_sim_dict[T], h.arr(F.sim(T)))
    F.apply(vals)
    F.check_sims()
    F.untouched()


KINDS = ["mu", "tp", "gamma_0", "gamma_k", "power", "Bamp", "energy_scale", "a", "b", "c", "number_of_bz", "T"]


def cases(tier):
    out = [("kind_" + k, routing([10], ["A"], [(10, "A", k)])) for k in KINDS]
    out += [
        ("two_T", routing([10, 25], ["A"], [(10, "A", "mu"), (25, "A", "mu"), (25, "A", "gamma_0")])),
        ("one_of_two", routing([10, 25], ["A"], [(25, "A", "tp"), (25, "A", "energy_scale")])),
        ("all", routing([10, 25], ["A"], [("all", "A", "tp"), ("all", "A", "gamma_k"), ("all", "A", "Bamp")])),
        ("mixed", routing([10, 25], ["A"], [(10, "A", "gamma_0"), ("all", "A", "mu"), (25, "A", "gamma_0"), ("all", "A", "power")])),
        ("all_first", routing([10, 25, 4], ["A"], [("all", "A", "mu"), (4, "A", "power"), (10, "A", "tp")])),
        ("all_five", routing([10, 25, 4, 60, 7], ["A"], [("all", "A", "mu"), ("all", "A", "gamma_k"), (60, "A", "tp"), (7, "A", "tp")])),
        ("five_bands", routing([10], list("ABCDE"), [(10, "E", "mu"), (10, "D", "gamma_0"), (10, "B", "power"), (10, "E", "gamma_0")])),
        ("bands", routing([10], ["A", "B"], [(10, "B", "mu"), (10, "A", "gamma_0"), (10, "B", "gamma_0"), (10, "A", "c")])),
        ("bands_all", routing([10, 25], ["A", "B"], [("all", "B", "mu"), (25, "A", "mu"), ("all", "A", "gamma_k"), (10, "B", "power")])),
        ("three_bands", routing([10], ["A", "B", "C"], [(10, "C", "mu"), (10, "A", "power"), (10, "C", "gamma_0"), (10, "B", "tp")])),
        ("many", routing([10, 25], ["A"], [(10, "A", k) for k in ("mu", "gamma_0", "Bamp", "energy_scale", "a")] + [("all", "A", "tp"), (25, "A", "mu")], 3)),
        ("two_fits", two_fits), ("reversed_field", reversed_field),
    ]
    if tier == "thorough":
        out += [("pairs_%s_%s" % (a, b), routing([10, 25], ["A", "B"], [("all", "A", a), (25, "B", b), (10, "B", a)]))
                for i, a in enumerate(KINDS) for b in KINDS[i + 1::3]]
    return out
