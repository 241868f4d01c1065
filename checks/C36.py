"""C36 file names and saved fits."""
import re
import numpy as np
from symx import terms as T
from .canvas import Canvas, near
from .maps import Fake
from .C21 import angles
from .fit import copy
from . import C27, C29, C32

BOUNDS = ("sweeps with 1-2 bands and 1-4 band parameters (M included), single-temperature fits with every kind of free parameter, loading into a fit "
          "that differs in one, several or all fixed settings, the temperature of the data or the angles; any values")
OUTSIDE = "runs that differ only by scattering rates, resolution or less than the digits of the name; members saved with other sets of settings"
ASSUMPTIONS = ["json reads back what it wrote (keys as text)", "surface and transport are arbitrary functions of the parameters the objects hold when they are computed"]


def value_after(h, text, key):
    """[(value, digits)] written right after a key"""
    out = []
    for m in re.finditer(r"(?:^|_|AF|/)%s(?:<#(\d+)\|?([^<>]*)>|(-?\d+(?:\.\d+)?))(?=_|\.(?:pdf|dat|json)$|$)" % re.escape(key), text):
        if m.group(1) is not None:
            d = re.match(r"\.(\d+)f$", m.group(2))
            out.append((T.TOKENS[int(m.group(1))], int(d.group(1)) if d else 17 if m.group(2) == "" else -1))
        else:
            out.append((h.num(m.group(3)), len(m.group(3).split(".")[1]) if "." in m.group(3) else 0))
    return out


def check_name(h, tag, text, want):
    for key, v, digits in want:
        got = value_after(h, text, key)
        h.true(tag + "%s in the name" % key, bool(got))
        for x, d in got:
            h.true(tag + "digits of %s" % key, d >= digits)
            h.true(tag + "value of %s" % key, near(h, x, v, 0.5 * 10.0 ** -digits))


def sweep(nb, keys, phis=(0,), names=None):
    def f(h):
        cv, files = Canvas(), []
        st = cv.stubs()
        st["numpy"] = {"savetxt": lambda fname, *a, **k: files.append(fname)}
        C = h.load("conductivity", st)
        fakes = [Fake(h, "abcd"[i], "diag", world=C, T=0) for i in range(nb)]
        A = h.world.load("cuprates_transport.admr")
        Tm = h.pos("T", 1, 300)
        par = {k: h.real("p_" + k) for k in keys}
        E = h.pos("scale", 10, 300)
        for i, fk in enumerate(fakes):
            fk.cond.T = Tm
            fk.cond.figParameters = lambda fig_show=True: cv.new("page")
            b = fk.cond.bandObject
            b.band_name = names[i] if names else "band%d" % i
            b.energy_scale = E
            b._band_params = dict(par) if i == 0 else dict(par, mu=h.real("mu%d" % i))
            b.n = fk.n
        adm = A.ADMR([fk.cond for fk in fakes], Bphi_array=list(phis), show_progress=False)
        adm.Btheta_array = h.arr(angles(h, 2))
        adm.runADMR()
        want = [("p", adm.total_hole_doping, 3), ("T", Tm, 0), ("B", fakes[0].cond.Bamp, 0), ("t", E, 1)] + [(k, v, 3) for k, v in par.items() if k != "t"]
        name = adm.file_name_func()
        check_name(h, "name: ", name, want)
        for b in set(names or ["band%d" % i for i in range(nb)]):
            h.same("every band in the name", len(re.findall(r"(?:_|^)%s(?=_|$)" % b, name)), 1 if not names else names.count(b))
        h.same("reconstructed bands marked", name.startswith("AF"), "M" in keys)
        adm.fileADMR()
        adm.fileADMR(folder="here")
        adm.fileADMR(folder="here", filename="mine.txt")
        adm.fileADMR(filename="mine.txt")
        h.same("data files", [str(x).replace(name, "NAME") for x in files], ["Rzz_NAME.dat", "here/Rzz_NAME.dat", "here/mine.txt", "mine.txt"])
        adm.figADMR(fig_show=False)
        adm.figADMR(fig_show=False, folder="here")
        adm.figADMR(fig_show=False, folder="here", filename="mine.pdf")
        adm.figADMR(fig_show=False, filename="mine.pdf")
        adm.figADMR(fig_show=False, fig_save=False)
        h.same("figure files", [str(d.a[0]).replace(name, "NAME") for d in cv.get("PdfPages")],
               ["Rzz_NAME.pdf", "here/Rzz_NAME.pdf", "here/mine.pdf", "mine.pdf"])
        h.same("same name later", adm.file_name_func(), name)
        # a later run is named after its own settings
        fakes[0].cond.Bamp = B2 = h.real("B2", 50, 90)
        fakes[0].cond.bandObject._band_params["mu"] = m2 = h.real("mu_later", 20, 30)
        adm.runADMR()
        later = adm.file_name_func()
        check_name(h, "later name: ", later, [("B", B2, 0), ("mu", m2, 3)] + [w for w in want if w[0] not in ("B", "mu")])
    return f


class Disk:
    """files of a fit: what json wrote by path"""

    def __init__(self):
        self.files, self.last = {}, None

    def open(self, path, mode="r", *a, **k):
        path = path[2:] if str(path).startswith("./") else path
        disk = self

        class F:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def close(self):
                pass
        f = F()
        f.path = path
        if "r" in mode and path not in disk.files:
            raise FileNotFoundError(path)
        return f

    def text(self, x):
        if isinstance(x, dict):
            return {str(k): self.text(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.text(v) for v in x]
        if isinstance(x, np.ndarray) or isinstance(x, (np.integer, np.bool_)):
            raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)
        return x

    def dump(self, obj, f, *a, **k):
        self.files[f.path] = self.text(obj)

    def load(self, f, *a, **k):
        return self.text(self.files[f.path])

    def stubs(self):
        return {"json": {"dump": self.dump, "load": self.load}, "builtins": {"open": self.open}}


def names_of_fit(which, keys=("mu", "tp")):
    def f(h):
        cv, disk = Canvas(), Disk()
        st = dict(disk.stubs(), **cv.stubs())
        F = C29.One(h, which, free=("mu", "gamma_0"), angles="grid", more=st)
        F.S.M.Conductivity.figParameters = lambda cond, fig_show=True, **k: cv.new("page")
        c = F.candidate("0")
        F.apply(c)
        F.evaluate(c)
        F.obj.save_member_to_json()
        F.obj.fig_compare(fig_show=False, fig_save=True)
        h.same("one file", len(disk.files), 1)
        path = list(disk.files)[0]
        pdf = [str(d.a[0]) for d in cv.get("PdfPages")]
        strip = lambda s: s[2:] if s.startswith("./") else s
        h.same("figure next to the member", [strip(s) for s in pdf], [path[:-5] + ".pdf"] if path.endswith(".json") else None)
        head, _, tail = path.partition("_fit_")
        cur = F.cur
        check_name(h, "data: ", head, [("p", F.mem["data_p"], 2), ("T", F.mem["data_T"], 1)])
        check_name(h, "fit: ", tail, [("p", F.obj.admrObject.total_hole_doping, 3), ("T", cur["T"], 0), ("B", cur["Bamp"], 0), ("t", cur["energy_scale"], 1)] +
                   [(k, cur["band_params"][k], 3) for k in keys])
        F.obj.save_member_to_json("given")
        h.true("given name", "given.json" in disk.files)
    return f


def settings(h, F, what, tag):
    """another starting point: some settings of the fit replaced"""
    m = copy(F.mem)
    for n in what:
        if n in ("mu", "tp", "t"):
            m["band_params"][n] = h.real("o_" + n + tag)
        elif n in ("gamma_0", "gamma_k", "power"):
            m["scattering_params"][n] = h.pos("o_" + n + tag)
        elif n == "data_T":
            m[n] = 25
        elif n == "angles":
            m["Btheta_max"] = m["Btheta_min"] + m["Btheta_step"]
        elif n == "Bphi_array":
            m[n] = [0]
        elif n == "extra":
            m["remark"] = 7
        elif n in ("T", "fixdoping"):
            m[n] = 3
        else:
            m[n] = h.pos("o_" + n + tag)
    return m


def load(which, what, free=("mu", "gamma_0"), norm=True, dope=None, phis=(0,)):
    """a saved fit, loaded by a fit that started from other settings, is the same fit"""
    def f(h):
        cv, disk = Canvas(), Disk()
        F = C29.One(h, which, free=free, norm=norm, angles="grid", dope=dope, phis=phis, more=dict(disk.stubs(), **cv.stubs()))
        F.S.M.Conductivity.figParameters = lambda cond, fig_show=True, **k: cv.new("page")
        c = F.candidate("0")
        F.apply(c)
        value = F.evaluate(c)
        F.obj.save_member_to_json("out")
        saved, first = F.obj, copy(F.obj.member)
        if "data_T" in what:
            F.data[25, 0] = list(F.data[10, 0])
        mem = settings(h, F, what, "")
        cls = F.S.M.FittingADMRParallel if which == C29.PAR else F.S.M.FittingADMR
        G = cls(mem, F.bd, F.data, normalized_data=norm)
        h.true("folder of the fits", G.folder == saved.folder)
        G.json_name = "out.json"
        G.load_member_from_json()
        C32.check_params(h, "loaded parameters", G.member, F.cur)
        h.same("loaded names", sorted(G.member), sorted(first))
        cv.clear()
        G.fig_compare(fig_show=False)
        h.eq("simulation of the loaded member", G.admrObject.rhozz_array, h.arr(F.sim()))
        F.obj = G
        F.check_angles("loaded fit: ")
        h.eq("objective of the loaded member", F.evaluate(c), value)
        d = F.candidate("1")
        F.apply(d)
        h.eq("the loaded fit goes on", F.evaluate(d), F.objective())
    return f


def cases(tier):
    out = [("sweep_1", sweep(1, ["mu", "t"])), ("sweep_2", sweep(2, ["mu", "t", "tp"])), ("sweep_af", sweep(1, ["mu", "tp", "M"])),
           ("sweep_twins", sweep(3, ["mu", "t"], names=["x", "y", "x"])), ("sweep_twin_pair", sweep(2, ["mu"], names=["x", "x"])),
           ("sweep_many", sweep(2, ["mu", "tp", "tpp", "tz"], (0, 45)))]
    single = ["mu", "tp", "gamma_k", "power", "a", "c", "energy_scale", "Bamp", "T"]
    for w, s in ((C29.PAR, "par_"), (C29.SER, "ser_")):
        out += [(s + "names", names_of_fit(w))]
        out += [(s + "load_same", load(w, [])), (s + "load_all", load(w, ["tp", "gamma_k", "power", "a", "b", "c", "energy_scale", "Bamp", "T"])),
                (s + "load_abs", load(w, ["tp", "gamma_0", "mu"], norm=False)), (s + "load_angles", load(w, ["angles"])), (s + "load_extra", load(w, ["extra"])), (s + "load_T", load(w, ["data_T", "tp"])),
                (s + "load_azimuth", load(w, ["Bphi_array"], phis=(0, 45))), (s + "load_doping", load(w, ["fixdoping", "tp"], dope="0.2"))]
        out += [(s + "load_" + n, load(w, [n])) for n in single]
    return out
