"""C02 velocity = gradient of the energy / hbar, in m/s."""
from .common import DEFAULT_MODEL
from .C01 import FREE, Q1D, NAMED, DECIMAL

BOUNDS = ("expressions: default model, free electrons, quasi-1D tight binding, dispersions independent of one or two "
          "axes, dispersions with a square root and an exponential, with parameter names sympy reserves, and dispersions linear in a component, coefficients with up to nine decimals, several bands of one model text; all real parameters, cells, wavevectors; arrays of 1-2 wavevectors and a 2-D array of 1x2")
OUTSIDE = "other expressions; the derivative itself is sympy's and is compared with a hand-derived gradient"
ASSUMPTIONS = ["sympy's generated code is executed symbolically", "numba.jit is the identity"]

ROOT = "- mu - sqrt(4*t**2*cos(a*kx)**2 + M**2) - tz*exp(-kz**2)*cos(b*ky)"
CHAIN = "-2*t*cos(b*ky) - mu"
PLANE = "-2*t*(cos(a*kx) + cos(c*kz)) - mu - 4*t2*sin(a*kx)*sin(c*kz)"
LINEAR = "t*cos(a*kx) + w*kz*cos(b*ky) - mu"
CONST = "t*kx + w*kz**2/2 - mu*b*ky"
MIX = "t*kx*ky + t2*cos(a*kx + b*ky + c*kz) - mu*kz**2"


def grad(h, model, P, a, b, c, kx, ky, kz):
    cos, sin = h.np.cos, h.np.sin
    if model is DEFAULT_MODEL:
        d = cos(a * kx) - cos(b * ky)
        ch = cos(a * kx / 2) * cos(b * ky / 2) * cos(c * kz / 2)
        gx = (2 * a * P["t"] * sin(a * kx) + 4 * P["tp"] * a * sin(a * kx) * cos(b * ky) + 4 * a * P["tpp"] * sin(2 * a * kx)
              + 4 * P["tz"] * d * a * sin(a * kx) * ch + P["tz"] * d ** 2 * a * sin(a * kx / 2) * cos(b * ky / 2) * cos(c * kz / 2))
        gy = (2 * b * P["t"] * sin(b * ky) + 4 * P["tp"] * b * cos(a * kx) * sin(b * ky) + 4 * b * P["tpp"] * sin(2 * b * ky)
              - 4 * P["tz"] * d * b * sin(b * ky) * ch + P["tz"] * d ** 2 * b * cos(a * kx / 2) * sin(b * ky / 2) * cos(c * kz / 2))
        gz = P["tz"] * d ** 2 * c * cos(a * kx / 2) * cos(b * ky / 2) * sin(c * kz / 2)
        return gx, gy, gz
    if model is FREE:
        return 2 * P["hbarfree"] * a ** 2 * kx, 2 * P["hbarfree"] * b ** 2 * ky, 2 * P["cz"] * c ** 2 * kz
    if model is Q1D:
        return (2 * P["t"] * a * sin(a * kx) - P["A2"] * a * sin(a * kx) * cos(b * ky),
                2 * P["Tb"] * b * sin(b * ky) - P["A2"] * b * cos(a * kx) * sin(b * ky), P["z1"] * c * sin(c * kz))
    if model is NAMED:
        return (-P["gamma"] * a * sin(a * kx) + P["I"] * P["beta"] + 0 * kx, -2 * P["E"] * b * cos(b * ky) * sin(b * ky), P["S"] * c * cos(c * kz))
    if model is ROOT:
        ex = h.np.exp(-kz ** 2)
        return (4 * P["t"] ** 2 * a * cos(a * kx) * sin(a * kx) / h.np.sqrt(4 * P["t"] ** 2 * cos(a * kx) ** 2 + P["M"] ** 2),
                P["tz"] * b * ex * sin(b * ky), 2 * P["tz"] * kz * ex * cos(b * ky))
    z = 0 * kx
    if model is DECIMAL:
        q = h.num
        u, w = q("1.41421356"), q("0.7071")
        return (2 * P["t"] * a * sin(a * kx) + 2 * u * a * P["tz"] * cos(w * c * kz) * cos(a * kx) * sin(a * kx),
                2 * P["t"] * q("0.3333") * b * sin(b * ky),
                u * w * c * P["tz"] * sin(w * c * kz) * cos(a * kx) ** 2 + 2 * q("1e-5") * P["w"] * kz)
    if model is CHAIN:
        return z, 2 * P["t"] * b * sin(b * ky), z
    if model is PLANE:
        return (2 * P["t"] * a * sin(a * kx) - 4 * P["t2"] * a * cos(a * kx) * sin(c * kz), z,
                2 * P["t"] * c * sin(c * kz) - 4 * P["t2"] * c * sin(a * kx) * cos(c * kz))
    if model is LINEAR:
        return -P["t"] * a * sin(a * kx), -P["w"] * b * kz * sin(b * ky), P["w"] * cos(b * ky)
    if model is CONST:
        return P["t"] + z, -P["mu"] * b + z, P["w"] * kz
    s = sin(a * kx + b * ky + c * kz)
    return (P["t"] * ky - P["t2"] * a * s, P["t"] * kx - P["t2"] * b * s, -P["t2"] * c * s - 2 * P["mu"] * kz)


def make(model, names, shape, edit=None, parallel=False):
    def f(h):
        bs = h.load("bandstructure")
        a, b, c = h.pos("a"), h.pos("b"), h.pos("c")
        E = h.pos("E")
        p = {k: h.real("p_" + k) for k in names}
        band = bs.BandStructure(a, b, c, E, band_params=dict(p), band_model=model, parallel=parallel)
        if edit == "item":
            p[names[0]] = h.real("new0")
            band[names[0]] = p[names[0]]
        if edit == "scale":
            E = h.pos("E2")
            band.energy_scale = E
        if edit == "cell":
            a = h.pos("a2")
            c = h.pos("c2")
            band.a, band.c = a, c
        kx, ky, kz = h.reals("kx", shape), h.reals("ky", shape), h.reals("kz", shape)
        v = band.velocity_func(kx, ky, kz)
        conv = h.const("q_e") * h.num("1e-3") * h.num("1e-10") / h.const("hbar")
        g = grad(h, model, {k: x * E for k, x in p.items()}, a, b, c, kx, ky, kz)
        h.same("components", len(v), 3)
        for i, n in enumerate("xyz"):
            h.eq("v" + n, v[i], g[i] * conv, scale=100.0)
        w = band.velocity_func(kx[0], ky[0], kz[0])
        for i, n in enumerate("xyz"):
            h.eq("v" + n + " at one point", w[i], (g[i] * conv)[0], scale=100.0)
    return f


def siblings(model, *sets):
    """bands of one model text with their own parameters, cells and scales"""
    def f(h):
        bs = h.load("bandstructure")
        bands = []
        k = [h.reals("k%d" % i, 1) for i in range(3)]
        conv = h.const("q_e") * h.num("1e-3") * h.num("1e-10") / h.const("hbar")
        for i, names in enumerate(sets):
            a, b, c, E = [h.pos("%s%d" % (x, i)) for x in "abcE"]
            p = {n: h.real("p%d_%s" % (i, n)) for n in names}
            band = bs.BandStructure(a, b, c, E, band_params=dict(p), band_model=model, parallel=False)
            bands.append((band, grad(h, model, {n: x * E for n, x in p.items()}, a, b, c, *k)))
        for band, g in bands:
            v = band.velocity_func(*k)
            for i, n in enumerate("xyz"):
                h.eq("v" + n, v[i], g[i] * conv, scale=100.0)
    return f


def cases(tier):
    d = ["t", "tp", "tpp", "tz", "mu"]
    out = [("default", make(DEFAULT_MODEL, d, 1)), ("default_item", make(DEFAULT_MODEL, d[::-1], 1, "item")),
           ("default_parallel", make(DEFAULT_MODEL, d, 1, None, True)),
           ("default_cell", make(DEFAULT_MODEL, d, 1, "cell")),
           ("free", make(FREE, ["hbarfree", "cz", "mu"], 2, "scale")),
           ("quasi1d", make(Q1D, ["t", "Tb", "z1", "A2", "mu"], 2)),
           ("quasi1d_2d", make(Q1D, ["t", "Tb", "z1", "A2", "mu"], (1, 2), "item")),
           ("chain", make(CHAIN, ["t", "mu"], 2)), ("chain_2d", make(CHAIN, ["t", "mu"], (2, 2))),
           ("plane", make(PLANE, ["t", "mu", "t2"], 2)), ("plane_3", make(PLANE, ["t2", "t", "mu"], (3,), "cell")),
           ("linear", make(LINEAR, ["t", "w", "mu"], 2)), ("linear_2d", make(LINEAR, ["w", "mu", "t"], (1, 2), "scale")),
           ("named", make(NAMED, ["gamma", "E", "S", "N", "I", "beta"], 1)),
           ("root", make(ROOT, ["mu", "t", "M", "tz"], 1)), ("root_2d", make(ROOT, ["M", "tz", "mu", "t"], (1, 2), "item")),
           ("decimal", make(DECIMAL, ["mu", "t", "tz", "w"], 1)), ("decimal_item", make(DECIMAL, ["w", "tz", "t", "mu"], 1, "item")),
           ("siblings", siblings(Q1D, ["t", "Tb", "z1", "A2", "mu"], ["A2", "unused", "mu", "t", "Tb", "z1"])),
           ("const", make(CONST, ["t", "w", "mu"], 2)),
           ("mixed", make(MIX, ["t", "t2", "mu"], 2))]
    if tier == "thorough":
        out += [("default_n3", make(DEFAULT_MODEL, d, 3)), ("default_2d", make(DEFAULT_MODEL, d, (2, 2), "scale")),
                ("mixed_2d", make(MIX, ["t", "t2", "mu"], (2, 3), "scale")), ("plane_2d", make(PLANE, ["t", "mu", "t2"], (3, 2)))]
    return out
