"""C01 band energy = user's expression with its own scaled parameters."""
from .common import DEFAULT_MODEL

BOUNDS = ("expressions: the default 5-parameter model, free electrons, a 3-parameter quasi-1D model with names that sort "
          "differently from their writing order, one whose names mean something else to sympy (gamma, E, S, N, I, beta), a "
          "reconstructed model with square root, exponential and absolute value; all real parameters, energy scales, cells and wavevectors; every insertion "
          "order tried 2; arrays of 2-3 wavevectors; one edit of each kind before evaluation; up to three bands of one model text side by side, also with unused parameters")
OUTSIDE = "expressions with more names or other functions than those listed"
ASSUMPTIONS = ["sympy parses and lambdifies the expression as written (its generated code is executed symbolically)",
               "numba.jit is the identity"]

FREE = "hbarfree*((a*kx)**2 + (b*ky)**2) + cz*(c*kz)**2 - mu"
NAMED = "gamma*cos(a*kx) + E*cos(b*ky)**2 + S*sin(c*kz) - N + I*beta*kx"
AF = ("- mu - tp*cos(a*kx)*cos(b*ky) - sqrt(4*t**2*(cos(a*kx) + cos(b*ky))**2 + M**2)"
      " - 2*tz*cos(c*kz)*exp(-abs(zeta)*(cos(a*kx) - cos(b*ky))**2/t**2)")
DECIMAL = "- 1.0000004*mu - 2*t*(cos(a*kx) + 0.3333*cos(b*ky)) - 1.41421356*tz*cos(0.7071*c*kz)*cos(a*kx)**2 + 1e-5*w*kz**2"
Q1D = "- mu - 2*t*cos(a*kx) - 2*Tb*cos(b*ky) - z1*cos(c*kz) + A2*cos(a*kx)*cos(b*ky)"


def spec(h, model, p, E, a, b, c, kx, ky, kz):
    cos = h.np.cos
    P = {k: v * E for k, v in p.items()}
    if model is DEFAULT_MODEL:
        return (-P["mu"] - 2 * P["t"] * (cos(a * kx) + cos(b * ky)) - 4 * P["tp"] * cos(a * kx) * cos(b * ky)
                - 2 * P["tpp"] * (cos(2 * a * kx) + cos(2 * b * ky))
                - 2 * P["tz"] * (cos(a * kx) - cos(b * ky)) ** 2 * cos(a * kx / 2) * cos(b * ky / 2) * cos(c * kz / 2))
    if model is FREE:
        return P["hbarfree"] * ((a * kx) ** 2 + (b * ky) ** 2) + P["cz"] * (c * kz) ** 2 - P["mu"]
    if model is NAMED:
        return P["gamma"] * cos(a * kx) + P["E"] * cos(b * ky) ** 2 + P["S"] * h.np.sin(c * kz) - P["N"] + P["I"] * P["beta"] * kx
    if model is AF:
        cx, cy = cos(a * kx), cos(b * ky)
        return (-P["mu"] - P["tp"] * cx * cy - h.np.sqrt(4 * P["t"] ** 2 * (cx + cy) ** 2 + P["M"] ** 2)
                - 2 * P["tz"] * cos(c * kz) * h.np.exp(-abs(P["zeta"]) * (cx - cy) ** 2 / P["t"] ** 2))
    if model is DECIMAL:
        q = h.num
        return (-q("1.0000004") * P["mu"] - 2 * P["t"] * (cos(a * kx) + q("0.3333") * cos(b * ky))
                - q("1.41421356") * P["tz"] * cos(q("0.7071") * c * kz) * cos(a * kx) ** 2 + q("1e-5") * P["w"] * kz ** 2)
    return (-P["mu"] - 2 * P["t"] * cos(a * kx) - 2 * P["Tb"] * cos(b * ky) - P["z1"] * cos(c * kz)
            + P["A2"] * cos(a * kx) * cos(b * ky))


def make(model, names, edit=None, n=2):
    def f(h):
        bs = h.load("bandstructure")
        a, b, c = h.pos("a"), h.pos("b"), h.pos("c")
        E = h.pos("E")
        p = {k: h.real("p_" + k) for k in names}
        band = bs.BandStructure(a, b, c, E, band_params=dict(p), band_model=model, parallel=False)
        if edit == "item":
            k = names[1]
            p[k] = h.real("new_" + k)
            band[k] = p[k]
        elif edit == "dict":
            p = {k: h.real("new_" + k) for k in reversed(names)}
            band.band_params = dict(p)
        elif edit == "scale":
            E = h.real("E2")
            band.energy_scale = E
        elif edit == "cell":
            a, b, c = h.pos("a2"), h.pos("b2"), h.pos("c2")
            band.a, band.b, band.c = a, b, c
        elif edit == "setter":
            k = names[-1]
            p[k] = h.real("new_" + k)
            band.set_band_param(k, p[k])
        kx, ky, kz = h.reals("kx", n), h.reals("ky", n), h.reals("kz", n)
        got = band.energy_func(kx, ky, kz)
        h.eq("energy", got, spec(h, model, p, E, a, b, c, kx, ky, kz), scale=1.0)
        h.eq("energy_scalar", band.energy_func(kx[0], ky[0], kz[0]),
             spec(h, model, p, E, a, b, c, kx[0], ky[0], kz[0]), scale=1.0)
    return f


def order_independent(h):
    bs = h.load("bandstructure")
    a, b, c, E = h.pos("a"), h.pos("b"), h.pos("c"), h.pos("E")
    names = ["mu", "t", "tp", "tpp", "tz"]
    p = {k: h.real("p_" + k) for k in names}
    orders = [names, names[::-1], ["tz", "mu", "tpp", "t", "tp"]]
    k = [h.real("k%d" % i) for i in range(3)]
    es = []
    for o in orders:
        band = bs.BandStructure(a, b, c, E, band_params={n: p[n] for n in o}, band_model=DEFAULT_MODEL, parallel=False)
        es.append(band.energy_func(*k))
    h.eq("order", es[1], es[0], scale=1.0)
    h.eq("order", es[2], es[0], scale=1.0)


def siblings(model, *sets):
    """bands of one model text with their own parameters, cells and scales, evaluated after all are built and in turn"""
    def f(h):
        bs = h.load("bandstructure")
        bands = []
        k = [h.real("k%d" % i) for i in range(3)]
        for i, names in enumerate(sets):
            a, b, c, E = [h.pos("%s%d" % (x, i)) for x in "abcE"]
            p = {n: h.real("p%d_%s" % (i, n)) for n in names}
            band = bs.BandStructure(a, b, c, E, band_params=dict(p), band_model=model, parallel=False)
            want = spec(h, model, p, E, a, b, c, *k)
            h.eq("when_built", band.energy_func(*k), want, scale=1.0)
            bands.append((band, want))
        for band, want in bands:
            h.eq("sibling", band.energy_func(*k), want, scale=1.0)
    return f


def cases(tier):
    d = ["t", "tp", "tpp", "tz", "mu"]
    out = [("default", make(DEFAULT_MODEL, d, n=1)),
           ("default_other_order", make(DEFAULT_MODEL, ["tz", "mu", "tp", "t", "tpp"], n=1)),
           ("default_item", make(DEFAULT_MODEL, d, "item", 1)),
           ("default_dict", make(DEFAULT_MODEL, d, "dict", 1)),
           ("default_cell", make(DEFAULT_MODEL, d, "cell", 1)),
           ("free", make(FREE, ["mu", "hbarfree", "cz"])),
           ("free_scale", make(FREE, ["cz", "mu", "hbarfree"], "scale")),
           ("quasi1d", make(Q1D, ["t", "Tb", "z1", "A2", "mu"], None, 2)),
           ("quasi1d_item", make(Q1D, ["z1", "A2", "mu", "t", "Tb"], "item")),
           ("quasi1d_setter", make(Q1D, ["z1", "A2", "mu", "t", "Tb"], "setter")),
           ("quasi1d_dict", make(Q1D, ["z1", "A2", "mu", "t", "Tb"], "dict")),
           ("named", make(NAMED, ["gamma", "E", "S", "N", "I", "beta"])),
           ("named_item", make(NAMED, ["S", "E", "gamma", "beta", "I", "N"], "item", 1)),
           ("af", make(AF, ["t", "tp", "tz", "M", "mu", "zeta"], None, 1)),
           ("af_dict", make(AF, ["mu", "zeta", "M", "t", "tp", "tz"], "dict", 1)),
           ("decimal", make(DECIMAL, ["mu", "t", "tz", "w"], None, 1)), ("decimal_item", make(DECIMAL, ["w", "tz", "t", "mu"], "item", 1)),
           ("siblings", siblings(FREE, ["mu", "hbarfree", "cz"], ["cz", "mu", "hbarfree"])),
           ("siblings_unused", siblings(Q1D, ["t", "Tb", "z1", "A2", "mu"], ["A2", "unused", "mu", "t", "Tb", "z1"], ["Tb", "A3", "z1", "A2", "mu", "t"])),
           ("order_independent", order_independent)]
    if tier == "thorough":
        out += [("default_n3", make(DEFAULT_MODEL, d, None, 3)), ("default_scale", make(DEFAULT_MODEL, d, "scale", 2)),
                ("default_setter", make(DEFAULT_MODEL, d, "setter", 2)), ("quasi1d_cell", make(Q1D, ["z1", "A2", "mu", "t", "Tb"], "cell", 3))]
    return out
