"""C30 objects do not share parameters through the caller's dictionaries."""
import itertools
import numpy as np

BOUNDS = ("two bands and two conductivity objects built from the same dictionaries; every sequence of 2 operations (3 thorough) out of: "
          "edits of either object by item, by method, by whole set, by energy scale, by doping; edits of the caller's dictionaries and "
          "lists; assignment of one object's parameters to the other; use of default arguments in between; all real values")
OUTSIDE = "longer histories; writing into an object's private attributes"
ASSUMPTIONS = ["the doping root finder returns an arbitrary root"]

MODEL = "- mu - 2*t*cos(a*kx) - 4*tp*cos(b*ky)"


class Two:
    def __init__(self, h):
        self.h = h
        self.n = 0
        self.bs = h.load("bandstructure", {"scipy.optimize": {"brentq": lambda f, lo, hi, **k: h.real("root%d" % self.tick())}})
        self.p = {"t": h.real("pt"), "tp": h.real("ptp"), "mu": h.real("pmu")}
        self.q = {"t": h.real("qt"), "tp": h.real("qtp"), "mu": h.real("qmu")}
        self.res, self.km = [3, 5, 7], [h.pos("km0"), h.pos("km1"), h.pos("km2")]
        self.E = h.pos("E")
        self.k = [h.real("k" + x) for x in "xyz"]
        self.abc = [h.pos(x) for x in "abc"]
        mk = lambda: self.bs.BandStructure(*self.abc, self.E, band_params=self.p, band_model=MODEL, resolution=self.res, k_max=self.km,
                                           parallel=False)
        self.objs = [mk(), mk()]
        # what is expected of each object, and of the caller's own containers
        self.want = [{"p": dict(self.p), "E": self.E, "km": list(self.km), "res": list(self.res)} for _ in "ab"]
        self.mine = {"p": dict(self.p), "q": dict(self.q), "km": list(self.km), "res": list(self.res)}

    def tick(self):
        self.n += 1
        return self.n

    def x(self):
        return self.h.real("x%d" % self.tick())

    def check(self, tag):
        h = self.h
        for i, (o, w) in enumerate(zip(self.objs, self.want)):
            t = "%s: band %d " % (tag, i)
            h.same(t + "names", sorted(o.band_params), sorted(w["p"]))
            for n, v in w["p"].items():
                h.eq(t + n, o[n], v)
                h.eq(t + n + " by method", o.get_band_param(n), v)
            h.eq(t + "energy scale", o.energy_scale, w["E"])
            h.eq(t + "k_max", h.arr(list(o.k_max)), h.arr(w["km"]))
            h.same(t + "resolution", list(o.resolution), w["res"])
            c, (kx, ky, kz) = self.cos, self.k
            a, b, _ = self.abc
            h.eq(t + "energy", o.energy_func(kx, ky, kz),
                 w["E"] * (-w["p"]["mu"] - 2 * w["p"]["t"] * c(a * kx) - 4 * w["p"]["tp"] * c(b * ky)))
        for n in ("p", "q"):
            got = getattr(self, n)
            h.same("%s: caller's %s names" % (tag, n), sorted(got), sorted(self.mine[n]))
            for k in got:
                h.eq("%s: caller's %s[%s]" % (tag, n, k), got[k], self.mine[n][k])
        h.eq(tag + ": caller's k_max", h.arr(list(self.km)), h.arr(self.mine["km"]))
        h.same(tag + ": caller's resolution", list(self.res), self.mine["res"])

    @property
    def cos(self):
        return self.bs.cos

    # ---------------------------------------------------------------- operations
    def op_item(self, i=0):
        v = self.x()
        self.objs[i]["tp"] = v
        self.want[i]["p"]["tp"] = v

    def op_method(self):
        v = self.x()
        self.objs[1].set_band_param("mu", v)
        self.want[1]["p"]["mu"] = v

    def op_set(self):
        self.objs[0].band_params = self.q
        self.want[0]["p"] = dict(self.mine["q"])

    def op_set_both(self):
        for o, w in zip(self.objs, self.want):
            o.band_params = self.q
            w["p"] = dict(self.mine["q"])

    def op_cross(self):
        self.objs[0].band_params = self.objs[1].band_params
        self.want[0]["p"] = dict(self.want[1]["p"])

    def op_scale(self):
        v = self.h.pos("x%d" % self.tick())
        self.objs[0].energy_scale = v
        self.want[0]["E"] = v

    def op_caller_p(self):
        self.p["t"] = self.mine["p"]["t"] = self.x()

    def op_caller_q(self):
        self.q["tp"] = self.mine["q"]["tp"] = self.x()

    def op_caller_new(self):
        self.p["extra"] = self.mine["p"]["extra"] = self.x()

    def op_lists(self):
        v = self.h.pos("x%d" % self.tick())
        self.km[1] = self.mine["km"][1] = v
        self.res[0] = self.mine["res"][0] = 9

    def op_own_lists(self):
        v = self.h.pos("x%d" % self.tick())
        self.objs[0].k_max[2] = v
        self.want[0]["km"][2] = v
        self.objs[0].resolution[1] = 11
        self.want[0]["res"][1] = 11

    def op_dope(self):
        o = self.objs[1]
        o.set_mu_to_doping(self.h.num("0.2"))
        self.want[1]["p"]["mu"] = o["mu"]


OPS = ["item", "method", "set", "set_both", "cross", "scale", "caller_p", "caller_q", "caller_new", "lists", "own_lists", "dope"]


def band_history(seqs):
    def f(h):
        seq = h.choice("sequence", seqs)
        S = Two(h)
        S.check("built")
        for i, o in enumerate(seq):
            getattr(S, "op_" + o)()
            S.check("after %s" % " ".join(seq[:i + 1]))
    return f


def band_defaults(h):
    """a band made with default arguments is not affected by what happened to another one"""
    bs = h.load("bandstructure")
    mk = lambda **k: bs.BandStructure(h.pos("a"), h.pos("b"), h.pos("c"), h.pos("E"), parallel=False, **k)
    first = mk()
    want = {"t": h.q(1), "tp": h.num("-0.136"), "tpp": h.num("0.068"), "tz": h.num("0.07"), "mu": h.num("-0.83")}
    km = [h.pi, h.pi, 2 * h.pi]

    def fresh(tag, o):
        for n, v in want.items():
            h.eq("%s default %s" % (tag, n), o[n], v)
        h.same(tag + " names", sorted(o.band_params), sorted(want))
        h.eq(tag + " default k_max", h.arr(list(o.k_max)), h.arr(km))
        h.same(tag + " default resolution", list(o.resolution), [21, 21, 3])
    fresh("first", first)
    first["mu"] = h.real("x0")
    first.k_max[0] = h.pos("x1")
    first.resolution[0] = 41
    first.band_params["tp"] = h.real("x2")
    fresh("second", mk())
    o = mk(band_params={"t": 1, "tp": 0, "tpp": 0, "tz": 0, "mu": h.real("x3")}, k_max=[1, 1, 1])
    o["tp"] = h.real("x4")
    fresh("third", mk())


class Cond:
    def __init__(self, h):
        from .common import Band
        self.h, self.n = h, 0
        self.C = h.load("conductivity")
        self.B = Band(h, 2, nbz=1)
        self.band = self.B.bare()
        self.names = ["gamma_0", "gamma_k", "power"]
        self.s = {n: h.pos("s_" + n) for n in self.names}
        self.r = {n: h.pos("r_" + n) for n in self.names}
        self.models = ["isotropic"]
        mk = lambda: self.C.Conductivity(self.band, h.pos("B"), scattering_models=self.models, scattering_params=self.s)
        self.objs = [mk(), mk()]
        self.want = [{"p": dict(self.s), "mu": self.band["mu"], "m": ["isotropic"], "own": {}} for _ in "ab"]
        self.mu = self.band["mu"]
        self.mine = {"s": dict(self.s), "r": dict(self.r), "m": ["isotropic"]}

    def x(self):
        self.n += 1
        return self.h.pos("y%d" % self.n)

    def check(self, tag):
        h = self.h
        k = [h.real("k" + c) for c in "xyz"]
        for i, (o, w) in enumerate(zip(self.objs, self.want)):
            t = "%s: object %d " % (tag, i)
            use = dict(w["p"], **w["own"])
            h.same(t + "rates", sorted(o.scattering_params), sorted(w["p"]))
            for n in w["p"]:
                h.eq(t + n, o.scattering_params[n], w["p"][n])
                h.eq(t + n + " in use", getattr(o, n), use[n])
            h.same(t + "models", list(o.scattering_models), w["m"])
            h.eq(t + "chemical potential", o.bandObject["mu"], w["mu"])
            rate = 1 / o.tau_tot_func(*k, *[h.pos("v" + c) for c in "xyz"])
            h.eq(t + "rate", rate, use["gamma_0"])
        h.eq(tag + ": the caller's band", self.band["mu"], self.mu)
        for n in ("s", "r"):
            got = getattr(self, n)
            h.same("%s: caller's %s names" % (tag, n), sorted(got), sorted(self.mine[n]))
            for k in got:
                h.eq("%s: caller's %s[%s]" % (tag, n, k), got[k], self.mine[n][k])
        h.same(tag + ": caller's models", list(self.models), self.mine["m"])

    def op_attribute(self):
        """the rate in use is changed directly; the next assignment replaces it"""
        v = self.x()
        self.objs[0].gamma_0 = v
        self.want[0]["own"] = {"gamma_0": v}

    def op_set_same(self):
        self.objs[0].scattering_params = dict(self.objs[0].scattering_params)
        self.want[0]["own"] = {}

    def op_set(self):
        self.objs[0].scattering_params = self.r
        self.want[0].update(p=dict(self.mine["r"]), own={})

    def op_set_both(self):
        for o, w in zip(self.objs, self.want):
            o.scattering_params = self.r
            w.update(p=dict(self.mine["r"]), own={})

    def op_fewer(self):
        """a set of rates replaces the former one, names included"""
        d = {"gamma_0": self.x()}
        self.objs[0].scattering_params = d
        self.want[0].update(p=dict(d), own={})

    def op_cross(self):
        self.objs[1].scattering_params = self.objs[0].scattering_params
        self.want[1].update(p=dict(self.want[0]["p"]), own={})

    def op_caller_s(self):
        self.s["gamma_0"] = self.mine["s"]["gamma_0"] = self.x()

    def op_caller_r(self):
        self.r["gamma_0"] = self.mine["r"]["gamma_0"] = self.x()

    def op_models(self):
        self.models.append("cos2phi")
        self.mine["m"].append("cos2phi")

    def op_own_band(self):
        v = self.x()
        self.objs[0].bandObject["mu"] = v
        self.want[0]["mu"] = v

    def op_caller_band(self):
        self.mu = self.x()
        self.band["mu"] = self.mu

    def op_modify_and_set(self):
        """the usual way of changing one rate"""
        d = self.objs[0].scattering_params
        d = dict(d)
        d["gamma_0"] = self.x()
        self.objs[0].scattering_params = d
        self.want[0].update(p=dict(d), own={})


COPS = ["set", "attribute", "set_same", "set_both", "fewer", "cross", "caller_s", "caller_r", "models", "own_band", "caller_band", "modify_and_set"]


def cond_history(seqs):
    def f(h):
        seq = h.choice("sequence", seqs)
        S = Cond(h)
        S.check("built")
        for i, o in enumerate(seq):
            getattr(S, "op_" + o)()
            S.check("after %s" % " ".join(seq[:i + 1]))
    return f


def admr_defaults(h):
    from .maps import Fake
    fk = Fake(h, "a", "diag")
    A = h.load("admr")
    one = A.ADMR([fk.cond], show_progress=False)
    one.Bphi_array[0] = 77
    one.Btheta_array[1] = 88
    two = A.ADMR([fk.cond], show_progress=False)
    h.eq("azimuths", two.Bphi_array, h.arr([0, 15, 30, 45]))
    h.eq("angles", two.Btheta_array, h.arr([5 * i for i in range(23)]))
    mine = [h.real("p0"), h.real("p1")]
    keep = list(mine)
    three = A.ADMR([fk.cond], show_progress=False, Bphi_array=mine)
    three.Bphi_array[0] = h.real("z")
    h.eq("caller's azimuths", h.arr(mine), h.arr(keep))
    mine[1] = h.real("w")
    h.eq("azimuths of the object", three.Bphi_array[1], keep[1])


def cases(tier):
    out = [("band_" + o, band_history([(o, x) for x in OPS])) for o in OPS]
    out += [("cond_" + o, cond_history([(o, x) for x in COPS])) for o in COPS]
    out += [("band_defaults", band_defaults), ("admr_defaults", admr_defaults)]
    if tier == "thorough":
        out += [("band3_%s_%s" % p, band_history([p + (x,) for x in OPS])) for p in itertools.product(OPS, OPS)]
        out += [("cond3_%s_%s" % p, cond_history([p + (x,) for x in COPS])) for p in itertools.product(COPS, COPS)]
    return out
