"""C32 the outcome of a parallel fit does not depend on the schedule of the workers."""
import itertools
import types
from copy import deepcopy
from . import C27, C29
from .fit import put, copy

BOUNDS = ("both parallel fits; generations of 2-3 candidates (2 generations thorough), every order of evaluation, every split of the candidates "
          "over 1-2 worker copies with state kept between the candidates of a copy, any candidate as the best one, candidates of any value "
          "(zeros included), parameters declared per temperature or shared, one or two temperatures")
OUTSIDE = "the arithmetic of scipy's differential evolution and the transport of objects between processes"
ASSUMPTIONS = ["the optimiser asks for the objective of its candidates only through the map it was given and returns one of them",
               "a worker holds a copy of the fit, made when the task was sent, and treats its tasks one after the other",
               "surface and transport are arbitrary functions of the parameters the objects hold when they are computed"]


class World:
    """stand-ins for the pool and the optimiser"""

    def __init__(self, h, n, gens=1, reuse=True):
        self.h, self.n, self.gens, self.reuse = h, n, gens, reuse
        self.perms = list(itertools.permutations(range(n)))
        self.evaluated = []
        self.dumps, self.opened = [], []
        self.generation = 0

    # pool
    def pool(self, processes=None, initializer=None, initargs=(), **k):
        w = self

        class P:
            def map(self, func, it, chunksize=None):
                return w.map(func, it)

            def starmap(self, func, it, chunksize=None):
                return w.map(lambda a: func(*a), it)

            def imap(self, func, it, chunksize=1):
                return iter(w.map(func, it))

            def apply(self, func, args=(), kwds={}):
                return func(*args, **kwds)

            def terminate(self):
                pass
            close = join = terminate

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None
        if initializer is not None:
            initializer(*initargs)
        return P()

    def value(self, code="i", v=0, lock=True):
        class L:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None
            acquire = release = lambda self, *a: True
        o = types.SimpleNamespace(value=v)
        o.get_lock = lambda: L()
        return o

    def map(self, func, it):
        h, xs = self.h, list(it)
        g = self.generation
        order = h.choice("order%d" % g, self.perms) if len(xs) == self.n else range(len(xs))
        copies, out = {}, [None] * len(xs)
        for i in order:
            w = h.choice("worker%d_%d" % (g, i), [0, 1])
            if w not in copies:
                copies[w] = deepcopy(func)
            out[i] = copies[w](xs[i])
        return out

    # optimiser
    def evolve(self, func, bounds, args=(), workers=1, updating="immediate", callback=None, **k):
        h = self.h
        self.bounds = bounds
        run = workers if callable(workers) else self.map
        for g in range(self.gens):
            self.generation = g
            xs = [self.vectors(g, i) for i in range(self.n)]
            keep = [list(x) for x in xs]
            # one attribute of a function is what scipy sends to a worker: the bound method, hence a copy of the fit
            vals = list(run(func, xs))
            for i, x in enumerate(xs):
                h.eq("candidate %d is not modified" % i, x, h.arr(keep[i]))
                self.evaluated.append((g, i, vals[i]))
            if callback is not None:
                callback(xs[0], h.num("0.5"))
        best = h.choice("best", list(range(self.n)))
        self.best = (self.gens - 1, best)
        return types.SimpleNamespace(x=self.vectors(self.gens - 1, best), fun=vals[best], success=True, message="", nit=self.gens)

    # files
    def open(self, path, *a, **k):
        self.opened.append(path)

        class F:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def write(self, s):
                pass
            close = read = lambda self: None
        return F()

    def dump(self, obj, f, *a, **k):
        self.dumps.append(copy(obj))

    def stubs(self):
        return {"scipy.optimize": {"differential_evolution": self.evolve}, "multiprocessing": {"Pool": self.pool, "Value": self.value,
                "cpu_count": lambda: 2}, "json": {"dump": self.dump}, "builtins": {"open": self.open}}


def check_params(h, tag, got, want):
    """the numbers of a set of parameters"""
    for k, v in want.items():
        if isinstance(v, dict):
            check_params(h, tag, got[k], v)
        elif not isinstance(v, (str, list)):
            h.eq("%s, %s" % (tag, k), got[k], v)


def multi(n, Ts, free, norm=True, gens=1, zero=()):
    def f(h):
        W = World(h, n, gens)
        F = C27.Fit(h, Ts, ["A"], free, normalized=norm, more=W.stubs())
        if F.order() is None:
            return h.fail("bounds", "the bounds %s are not those declared" % (F.obj.bounds,))
        made = {}

        def vectors(g, i):
            if (g, i) not in made:
                made[g, i] = F.candidate("%d_%d" % (g, i), zero if i == 0 else ())
            return h.arr(list(made[g, i][0]))
        W.vectors = vectors
        M = F.S.M
        res = M.fit_admr_parallel(F.params, F.bd, F.data, normalized_data=norm, num_cpu=2)
        for g, i, v in W.evaluated:
            F.cur = copy(F.params)
            F.apply(made[g, i][1])
            h.eq("objective", v, F.objective())
        F.cur = copy(F.params)
        F.apply(made[W.best][1])
        for T in Ts:
            check_params(h, "returned parameters", res.params_dict[T], F.cur[T])
            s = F.sim(T)
            h.eq("returned simulation", res.rhozz_sim_dict[T], h.arr(s))
            h.eq("returned normalised simulation", res.rzz_sim_dict[T], h.arr(F.normalise(T, s)))
        res.save_member_to_json(filename="out")
        for T in Ts:
            check_params(h, "saved parameters", W.dumps[-1][T], F.cur[T])
        h.true("file", len(W.dumps) == 1 and W.opened[-1].split("/")[-1].startswith("out"))
        F.untouched()
    return f


def single(n, free, norm=True, gens=1, zero=(), **kw):
    def f(h):
        W = World(h, n, gens)
        F = C29.One(h, C29.PAR, free=free, norm=norm, angles="grid", more=W.stubs(), **kw)
        F.obj = F.build()
        pos = F.order()
        if pos is None:
            return h.fail("bounds", "the bounds %s are not those declared" % (F.obj.bounds,))
        made = {}

        def vectors(g, i):
            if (g, i) not in made:
                made[g, i] = F.candidate("%d_%d" % (g, i), zero if i == 0 else ())
            x = [None] * len(pos)
            for k, v in made[g, i].items():
                x[pos[k]] = v
            return h.arr(x)
        W.vectors = vectors
        res = F.S.M.fit_admr_parallel(F.mem, F.bd, F.data, normalized_data=norm, num_cpu=2, filename="out")
        for g, i, v in W.evaluated:
            F.cur = copy(F.mem)
            F.apply(made[g, i])
            h.eq("objective", v, F.objective())
        F.cur = copy(F.mem)
        F.apply(made[W.best])
        want = {k: v for k, v in F.cur.items() if k not in ("Btheta_min", "Btheta_max", "Btheta_step", "Bphi_array")}
        check_params(h, "returned parameters", res, want)
        h.same("one file", len(W.dumps), 1)
        check_params(h, "saved parameters", W.dumps[0], want)
        h.true("file name", W.opened[-1].split("/")[-1].startswith("out"))
        F.untouched()
    return f


def serial(free, method="least_square", norm=True, folder=None, **kw):
    """the serial fit keeps and saves what lmfit returns"""
    def f(h):
        W = World(h, 1)
        out = {}

        def minimize(func, pars, *a, **k):
            c = F.candidate("try")
            for n, v in c.items():
                pars[n].value = v
            r = func(pars)
            F.apply(c)
            h.eq("objective", sum(q * q for q in r), F.objective())
            best = C29.Params()
            out["best"] = F.candidate("best")
            for n, v in out["best"].items():
                best.add(n, v)
            return types.SimpleNamespace(params=best)
        F = C29.One(h, C29.SER, free=free, norm=norm, angles="grid",
                    more=dict(W.stubs(), lmfit={"Parameters": C29.Params, "minimize": minimize, "report_fit": lambda *a, **k: None}), **kw)
        obj = F.S.M.FittingADMR(F.mem, F.bd, F.data, normalized_data=norm, method=method, **({} if folder is None else {"folder": folder}))
        obj.runFit(filename="out")
        F.cur = copy(F.mem)
        F.apply(out["best"])
        want = {k: v for k, v in F.cur.items() if k not in ("Btheta_min", "Btheta_max", "Btheta_step", "Bphi_array")}
        check_params(h, "final parameters", obj.member, want)
        h.same("one file", len(W.dumps), 1)
        check_params(h, "saved parameters", W.dumps[0], want)
        import os.path
        h.same("file", os.path.normpath(W.opened[-1]), "out.json" if folder is None else folder + "/out.json")
        F.untouched()
    return f


def cases(tier):
    mix = [(10, "A", "gamma_0"), ("all", "A", "mu"), (25, "A", "energy_scale")]
    out = [("multi_one", multi(3, [10], [(10, "A", "mu"), (10, "A", "gamma_0")], zero=(0,))),
           ("multi_mix", multi(2, [10, 25], mix, zero=(1,))),
           ("multi_abs", multi(2, [10, 25], mix, norm=False)),
           ("multi_shared", multi(3, [10, 25], [("all", "A", "tp"), ("all", "A", "gamma_k")])),
           ("single_band", single(3, ("mu", "energy_scale"), zero=("mu",))),
           ("single_scattering", single(2, ("gamma_0", "power", "tp"), norm=False)),
           ("single_field", single(2, ("Bamp", "c", "gamma_k"))),
           ("single_doping", single(2, ("tp", "gamma_0"), dope="0.24")),
           ("serial_ls", serial(("mu", "gamma_0", "Bamp"))), ("serial_ampgo", serial(("tp", "energy_scale"), "ampgo")),
           ("serial_de", serial(("power", "mu"), "differential_evolution", norm=False)), ("serial_shgo", serial(("gamma_k",), "shgo", folder="results")),
           ("serial_doping", serial(("gamma_0",), dope="0.2"))]
    if tier == "thorough":
        out += [("multi_two", multi(2, [10, 25], mix, gens=2), {"max_paths": 5000}), ("multi_three", multi(3, [10, 25], mix), {"max_paths": 5000}),
                ("single_two", single(2, ("mu", "gamma_0", "T"), gens=2), {"max_paths": 5000}),
                ("single_three", single(3, ("mu", "gamma_0", "Bamp")), {"max_paths": 5000})]
    return out
