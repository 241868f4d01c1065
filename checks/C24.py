"""C24 ADMR data file."""
import numpy as np
from .maps import Fake, rhozz
from .C21 import angles

BOUNDS = ("1-2 bands, 1-5 azimuths, 1-4 polar angles, 1 to 6 band parameters (antiferromagnetic M included) of any value, any energy scale, "
          "field and resolution; explicit and automatic file names; the table is read from the arguments of np.savetxt")
OUTSIDE = "np.savetxt itself; digits beyond the documented rounding (three decimals for band parameters, unit meV for the energy scale)"
ASSUMPTIONS = ["np.savetxt writes the header and the array it is given"]


class Saved:
    def __init__(self):
        self.calls = []

    def savetxt(self, fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
        self.calls.append(dict(fname=fname, X=X, fmt=fmt, delimiter=delimiter, newline=newline, header=header, comments=comments))

    def stubs(self):
        return {"numpy": {"savetxt": self.savetxt}}


def check_table(h, q, phis, ths, rho, Bamp, scale, params, res, tag=""):
    names = [x for x in q["header"].replace("\t", " ").split(" ") if x]
    X = q["X"]
    n = 1 + len(phis) + 2 + len(params) + 3
    h.same(tag + "one label per column", len(names), n)
    h.same(tag + "table shape", tuple(X.shape), (len(ths), n))
    col = lambda i: h.arr([X[r, i] for r in range(len(ths))])
    const = lambda v: h.arr([v] * len(ths))
    h.true(tag + "label of the angle", names[0].startswith("theta"))
    h.eq(tag + "angle", col(0), h.arr(ths), scale=1e-3)
    for i, p in enumerate(phis):
        h.true(tag + "label of an azimuth", ("phi=" + str(p) + ")" in names[1 + i] or "phi=" + str(float(p)) + ")" in names[1 + i])
               and names[1 + i].startswith("rho"))
        h.eq(tag + "resistivity", col(1 + i), h.arr(rho[i]))
    k = 1 + len(phis)
    h.true(tag + "label of the field", names[k].startswith("B["))
    h.eq(tag + "field", col(k), const(Bamp))
    h.true(tag + "label of the energy scale", names[k + 1].startswith("t["))
    h.le(tag + "energy scale", abs(col(k + 1) - const(scale)), h.q(1, 2))
    mid = names[k + 2:k + 2 + len(params)]
    h.same(tag + "band parameters", sorted(mid), sorted(params))
    for i, m in enumerate(mid):
        if m in params:
            h.le(tag + "band parameter", abs(col(k + 2 + i) - const(params[m])), h.q(1, 2000), tol=1e-6)
    for i, r in enumerate("xyz"):
        h.true(tag + "label of a resolution", names[n - 3 + i] == "res_" + r)
        h.eq(tag + "resolution", col(n - 3 + i), const(res[i]))
    h.true(tag + "header is a comment", q["comments"].startswith("#") and "\n" not in q["header"])
    for v in (1234.5678, -1.2345678e-7, 0.0, 33.25):
        h.true(tag + "enough digits", isinstance(q["fmt"], str) and abs(float(q["fmt"] % v) - v) <= 1e-6 * abs(v))
    h.true(tag + "columns can be told apart", q["delimiter"] in (" ", "\t", ",") and q["newline"] == "\n")


def setup(h, nb, phis, nth, keys, saved, concrete=False):
    ths = angles(h, nth)
    world_stub = saved.stubs()
    C = h.load("conductivity", world_stub)
    fakes = [Fake(h, "ab"[i], "diag", world=C, T=0, **({"Bamp": 33.5} if concrete else {})) for i in range(nb)]
    A = h.world.load("cuprates_transport.admr")
    out = []
    for f in fakes:
        p = {k: (0.1234 * (i + 1) if concrete else h.real("%s%s" % (k, f.tag), -2, 2)) for i, k in enumerate(keys)}
        b = f.cond.bandObject
        b._band_params = dict(p, t=1)
        b.resolution = [5, 7, 3] if f.tag == "a" else [9, 9, 9]
        if concrete:
            b.energy_scale = 160.4
        out.append(p)
    adm = A.ADMR([f.cond for f in fakes], Bphi_array=phis, show_progress=False, Btheta_norm=ths[0])
    adm.Btheta_array = h.arr(ths)
    return fakes, adm, ths, out


def table(nb, phis, nth, keys):
    def f(h):
        sv = Saved()
        fakes, adm, ths, params = setup(h, nb, phis, nth, keys, sv)
        # the last key has a value of zero in a second pass
        for r in range(2):
            adm.runADMR()
            rho = [[rhozz(h, fakes, p, t) for t in ths] for p in phis]
            adm.fileADMR(folder="dir", filename="name.dat")
            h.same("files written", len(sv.calls), r + 1)
            q = sv.calls[-1]
            h.same("file name", q["fname"], "dir/name.dat")
            b = fakes[0].cond.bandObject
            check_table(h, q, phis, ths, rho, fakes[0].cond.Bamp, b.energy_scale, params[0], [5, 7, 3], "pass %d " % r)
            h.eq("map not altered", adm.rhozz_array, h.arr(rho))
            if keys:
                b._band_params[keys[-1]] = params[0][keys[-1]] = 0
            fakes[0].cond.Bamp = h.real("Bother", 1, 50)
    return f


def names(keys):
    """automatic file name"""
    def f(h):
        sv = Saved()
        phis = [0, 45]
        fakes, adm, ths, params = setup(h, 2, phis, 2, keys, sv, concrete=True)
        for fk in fakes:
            fk.cond.bandObject.n = 0.75 if fk.tag == "a" else 0.05
        adm.runADMR()
        rho = [[rhozz(h, fakes, p, t) for t in ths] for p in phis]
        for folder in ("", "dir"):
            adm.fileADMR(folder=folder)
            q = sv.calls[-1]
            name = q["fname"]
            h.true("in the folder", name.startswith("dir/" if folder else "Rzz_") and name.endswith(".dat"))
            check_table(h, q, phis, ths, rho, fakes[0].cond.Bamp, fakes[0].cond.bandObject.energy_scale, params[0], [5, 7, 3])
            for part in ("p0.200", "T0", "t160.4", "Ba", "Bb"):
                h.true("file name states " + part, part in name)
            for i, k in enumerate(keys):
                h.true("file name states a parameter", "_%s%.3f" % (k, 0.1234 * (i + 1)) in name)
    return f


def cases(tier):
    out = [("table_1", table(1, [0], 1, ["mu"])), ("table_2", table(2, [0, 15], 3, ["mu", "tp", "tpp", "tz"])),
           ("table_3", table(1, [10, 45.5, 5], 2, ["tp", "mu", "M"])), ("table_5", table(1, [0, 15, 30, 45, 60], 2, ["z", "a", "tz1", "T", "B", "res"])),
           ("table_around", table(1, [-45, 200, 360.5, 22.125, 135], 2, ["mu"])), ("table_none", table(1, [0, 30], 4, [])), ("names", names(["mu", "tp"])), ("names_af", names(["mu", "M", "tz"]))]
    if tier == "thorough":
        out += [("table_big", table(3 - 1, [float(i) * 7.5 for i in range(9)], 5, ["mu", "tp", "tpp", "tz", "tz2", "M", "a1", "Z"]))]
    return out
