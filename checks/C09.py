"""C09 Matthiessen's rule."""
import itertools
import numpy as np

BOUNDS = ("every ordered selection (with repetition) of 1 to 3 models (4 thorough; 5 of two of them) out of momentum, velocity and energy models, "
          "the five built-in models and models with further local variables; 1 to 3 carriers, one- and two-dimensional arrays; "
          "repeated evaluation at other states and after a change of parameters")
OUTSIDE = "models whose signature is none of (kx, ky, kz), (vx, vy, vz), (epsilon)"
ASSUMPTIONS = ["model rates are uninterpreted positive functions of their arguments and of a current parameter"]


class Cell:
    pass


def mods(h, S, par=True):
    """a Scattering subclass with uninterpreted models of each kind"""
    U = {n: h.uf(n, "pos") for n in ("mk", "mk2", "mv", "mv2", "me", "ml", "mw")}
    deco = S.scattering_method

    class Sc(S.Scattering):
        @deco
        def mk(self, kx, ky, kz):
            return U["mk"](kx, ky, kz, self.g1)

        @deco
        def mk2(self, kx, ky, kz):
            return U["mk2"](kx, ky, kz, self.g2)

        @deco
        def mv(self, vx, vy, vz):
            return U["mv"](vx, vy, vz, self.g1)

        @deco
        def mv2(self, vx, vy, vz):
            return U["mv2"](vx, vy, vz, self.g2)

        @deco
        def me(self, epsilon):
            return U["me"](epsilon, self.g1)

        @deco
        def ml(self, kx, ky, kz):
            epsilon = kx + ky
            vx = kz
            return U["ml"](epsilon, vx, self.g2)

        @deco
        def mw(self, vx, vy, vz):
            epsilon = vx * vy
            kx = vz
            return U["mw"](epsilon, kx, self.g1)

    def rate(name, k, v, e, g):
        f = U[name]
        return {"mk": lambda: f(*k, g["g1"]), "mk2": lambda: f(*k, g["g2"]), "mv": lambda: f(*v, g["g1"]),
                "mv2": lambda: f(*v, g["g2"]), "me": lambda: f(e, g["g1"]),
                "ml": lambda: f(k[0] + k[1], k[2], g["g2"]), "mw": lambda: f(v[0] * v[1], v[2], g["g1"])}[name]()
    return Sc, rate


def state(h, name, shape):
    return [h.reals("%s_%s" % (name, d), shape) for d in ("kx", "ky", "kz", "vx", "vy", "vz")]


def want(h, rate, models, st, e, g):
    shape = st[0].shape
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        tot = 0
        for m in models:
            tot = tot + rate(m, [s[i] for s in st[:3]], [s[i] for s in st[3:]], e, g)
        out[i] = 1 / tot
    return h.arr(out)


def selections(names, lengths, shape=(2,), again=False):
    def f(h):
        S = h.load("scattering")
        Sc, rate = mods(h, S)
        g = {"g1": h.real("g1"), "g2": h.real("g2")}
        st = state(h, "s", shape)
        st2 = state(h, "r", (3,))
        e, e2 = h.real("epsilon"), h.real("epsilon2")
        for n in lengths:
            for sel in itertools.product(names, repeat=n):
                lst = list(sel)
                sc = Sc(lst, dict(g))
                tag = "tau"
                h.eq(tag, sc.tau_tot_func(*st, e), want(h, rate, sel, st, e, g))
                h.same("models kept", lst, list(sel))
                if again:
                    # other states, other number of carriers, default energy, then the first ones again
                    h.eq("other states", sc.tau_tot_func(*st2, e2), want(h, rate, sel, st2, e2, g))
                    st3 = state(h, "q", shape)      # as many carriers as the first time
                    h.eq("other states, same number", sc.tau_tot_func(*st3, e), want(h, rate, sel, st3, e, g))
                    # one of the arrays is the very same object, then one is changed in place
                    for j in range(6):
                        st4 = [st3[i] if i == j else st[i] for i in range(6)]
                        sc.tau_tot_func(*st, e)
                        h.eq("one array shared", sc.tau_tot_func(*[st[i] if i == j else st3[i] for i in range(6)], e),
                             want(h, rate, sel, [st[i] if i == j else st3[i] for i in range(6)], e, g))
                        h.eq("one array other", sc.tau_tot_func(*st4, e), want(h, rate, sel, st4, e, g))
                        st5 = [x.copy() for x in st]
                        sc.tau_tot_func(*st5, e)
                        st5[j][...] = st3[j]
                        h.eq("one array changed in place", sc.tau_tot_func(*st5, e), want(h, rate, sel, st4, e, g))
                    h.eq("other energy", sc.tau_tot_func(*st3, e2), want(h, rate, sel, st3, e2, g))
                    h.eq("default energy", sc.tau_tot_func(*st), want(h, rate, sel, st, 0, g))
                    h.eq("by name", sc.tau_tot_func(epsilon=e, kx=st[0], ky=st[1], kz=st[2], vx=st[3], vy=st[4], vz=st[5]),
                         want(h, rate, sel, st, e, g))
                    g2 = {"g1": h.real("g1b"), "g2": h.real("g2b")}
                    sc.scattering_params = dict(g2)
                    h.eq("edited parameters", sc.tau_tot_func(*st, e), want(h, rate, sel, st, e, g2))
                    sc.g1 = h.real("g1c")
                    g3 = dict(g2, g1=h.real("g1c"))
                    h.eq("edited attribute", sc.tau_tot_func(*st, e), want(h, rate, sel, st, e, g3))
    return f


def builtin_again(h):
    """the built-in models on other states held in arrays of the same shape: same as a fresh object"""
    S = h.load("scattering")
    names = ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]
    p = {"gamma_0": h.pos("gamma_0"), "gamma_k": h.pos("gamma_k"), "power": 2, "power_z": 2, "gamma_k_sin": h.pos("gamma_k_sin"),
         "power_sin": 2, "gamma_dos_max": h.pos("gamma_dos_max")}
    cell = Cell()
    cell.a, cell.b, cell.c = h.pos("a"), h.pos("b"), h.pos("c")
    cell.dos_k = h.reals("dos", 2, pos=True)

    def states(t, shape):
        st = state(h, t, shape)
        for i in np.ndindex(*shape):
            j = "_".join(map(str, i))
            st[0][i] = h.real("fx%s%s" % (t, j), .1, .9, bounded=True) * h.pi / cell.a
            st[1][i] = h.real("fy%s%s" % (t, j), .1, .9, bounded=True) * h.pi / cell.b
            st[3][i] = h.pos("w%s%s" % (t, j))
        return [h.arr(s) for s in st] if h.sym else st

    for shape in ((2,), (1, 2)):
        for n in names:
            used = S.Scattering([n], dict(p))
            used.bandObject = cell
            used.tau_tot_func(*states("s", shape))
            new = S.Scattering([n], dict(p))
            new.bandObject = cell
            st = states("r", shape)
            h.eq(n + " again", used.tau_tot_func(*st), new.tau_tot_func(*st))
            for j in range(3):      # one array changes, the others are the very same objects
                st2 = [states("q", shape)[i] if i == j else st[i] for i in range(6)]
                new = S.Scattering([n], dict(p))
                new.bandObject = cell
                h.eq(n + " one other array", used.tau_tot_func(*st2), new.tau_tot_func(*st2))
                used.tau_tot_func(*st)


def builtin(h):
    """the built-in models listed together: the sum of each one evaluated alone (their own formulas are C10, C11)"""
    S = h.load("scattering")
    names = ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]
    p = {"gamma_0": h.pos("gamma_0"), "gamma_k": h.pos("gamma_k"), "power": 2, "power_z": 2, "gamma_k_sin": h.pos("gamma_k_sin"),
         "power_sin": 2, "gamma_dos_max": h.pos("gamma_dos_max")}
    cell = Cell()
    cell.a, cell.b, cell.c = h.pos("a"), h.pos("b"), h.pos("c")
    cell.dos_k = h.reals("dos", 2, pos=True)
    # momenta inside the first zone (folding is C10): fractions of the zone edge
    st = state(h, "s", (2,))
    for i in range(2):
        st[0][i] = h.real("fx%d" % i, -.9, .9, bounded=True) * h.pi / cell.a
        st[1][i] = h.real("fy%d" % i, -.9, .9, bounded=True) * h.pi / cell.b
        st[3][i] = h.pos("w%d" % i)
    if h.sym:
        st = [h.arr(s) for s in st]
    alone = {}
    for n in names:
        sc = S.Scattering([n], dict(p))
        sc.bandObject = cell
        alone[n] = getattr(sc, n)(*(st[3:] if n == "gamma_dos_func" else st[:3]))
    for n in (1, 2):
        for sel in itertools.product(names, repeat=n):
            sc = S.Scattering(list(sel), dict(p))
            sc.bandObject = cell
            t = sc.tau_tot_func(*st)
            tot = 0
            for m in sel:
                tot = tot + alone[m]
            h.eq("builtin", t, 1 / tot)


def cases(tier):
    out = [("selections", selections(["mk", "mv", "me"], (1, 2, 3))),
           ("kinds", selections(["mk", "mk2", "mv", "mv2", "me"], (1, 2))),
           ("locals", selections(["ml", "mw", "me"], (1, 2))),
           ("two_dim", selections(["mk", "mv", "me"], (1, 2), (2, 2))),
           ("again", selections(["mk", "mv", "me"], (1, 2), again=True)),
           ("one", selections(["mk", "mv", "me", "ml"], (1, 2, 3), (1,))),
           ("longer", selections(["mk", "mv"], (5,), (1,))),
           ("builtin", builtin), ("builtin_again", builtin_again)]
    if tier == "thorough":
        out += [("long", selections(["mk", "mv", "me"], (4,), (1,))),
                ("long_kinds", selections(["mk", "mk2", "mv", "me", "ml"], (3,), (1,)))]
    return out
