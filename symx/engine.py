"""Path exploration and the dual-mode harness.

A harness is a function  f(h)  written once against the object h.  In symbolic mode
h.real/h.uf hand out symbolic values, every branch of the real code on them forks the
path, and every h.eq/h.le/h.true becomes an SMT query over all values of the path.  In
concrete mode the same function runs the unmodified source of /repo on floats, which is
used (a) to replay a solver counterexample, (b) to validate the encoding.
"""
import os
import hashlib
import math
import random
import sys
import time
import traceback
import numpy as np
from . import terms as T
from . import smt
from .terms import R, SB, Unsupported, lift
from . import arrays
from .arrays import SArr, sarr, _map, has_sym
from .loader import World, REPO


class Infeasible(Exception):
    """this path cannot happen"""


class Skip(Exception):
    """concrete input outside the assumptions"""


class Violated(Exception):
    pass


class Budget(Exception):
    pass


class Found(BaseException):
    """a candidate was reproduced on the real code: nothing else to explore in this case"""


BIG = 10 ** 7


# ------------------------------------------------------------------ exploration
class Explorer:
    def __init__(self, max_paths, deadline):
        self.max_paths = max_paths
        self.deadline = deadline
        self.stack = [[]]
        self.truncated = False

    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.known = {}

    # -- path condition
    def add(self, sb):
        if sb.kind == "c":
            if not sb.args:
                raise Infeasible()
            return
        self.pc.append(sb)
        self.known[sb.key] = True
        self.known[T.not_(sb).key] = False
        if sb.kind == "and":
            for a in sb.args:
                self.known[a.key] = True
                self.known[T.not_(a).key] = False

    def feasible(self, extra):
        if time.time() > self.deadline:
            raise Budget("time")
        r, m, _ = smt.solve(self.pc + extra, timeout_ms=1500, feas=True, want_model=False)
        return r != "unsat"

    def branch(self, sb):
        k = self.known.get(sb.key)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add(sb if v else T.not_(sb))
            return v
        n = T.not_(sb)
        t = self.feasible([sb])
        f = self.feasible([n]) if t else True
        if t and f:
            self.stack.append(self.trace + [False])
            v = True
        else:
            v = t
        self.trace.append(v)
        self.add(sb if v else n)
        return v

    def concretise(self, x, exact):
        i = len(self.trace)
        kx = ("int", x.key, exact)
        if kx in self.known:
            return self.known[kx]
        if i < len(self.prefix):
            n = self.prefix[i]
        else:
            vals = []
            conds = []
            while True:
                if time.time() > self.deadline:
                    raise Budget("time")
                try:
                    v = self._some_int(x, exact, conds)
                except Unknown:
                    vals = self._each_int(x, exact)
                    break
                if v is None:
                    break
                vals.append(v)
                conds.append(T.not_(_is_int(x, v, exact)))
                if len(vals) > 24:
                    raise Unsupported("int() of an unbounded symbolic value")
            if not vals:
                raise Infeasible()
            vals.sort()
            for v in vals[1:]:
                self.stack.append(self.trace + [v])
            n = vals[0]
        self.trace.append(n)
        self.add(_is_int(x, n, exact))
        self.known[kx] = n
        return n

    def small_int(self, x):
        """fork over the values of an integer atom when there are at most three, else None"""
        kx = ("small", x.key)
        if kx in self.known:
            return self.known[kx]
        i = len(self.trace)
        if i < len(self.prefix):
            n = self.prefix[i]
        else:
            vals = self._few(x)
            if vals:
                for v in vals[1:]:
                    self.stack.append(self.trace + [v])
            n = vals[0] if vals else None
        self.trace.append(n)
        self.known[kx] = n
        if n is not None:
            self.add(T.eq0(x - n))
        return n

    def _few(self, x):
        vals, conds = [], []
        for _ in range(4):
            t = T.var("_conc%d" % (len(T.ATOMS)))
            r, m, s = smt.solve(self.pc + conds + [T.eq0(t - x)], timeout_ms=1500, feas=True)
            if r == "unsat":
                return sorted(vals)
            if r != "sat" or m is None or len(vals) == 3:
                return None
            (mono, _), = t.p.items()
            v = m[0].get(T.ATOMS[mono[0][0]].name)
            if v is None:
                return None
            vals.append(int(round(v)))
            conds.append(T.not_(T.eq0(x - vals[-1])))
        return None

    def _each_int(self, x, exact):
        """small values not excluded by the solver, one query each"""
        lo, hi = -1, 8
        for c in (x <= lo, x >= hi + 1):
            if smt.solve(self.pc + [c], timeout_ms=8000, feas=True, want_model=False)[0] != "unsat":
                raise Unsupported("int() of a symbolic value (solver: unknown)")
        return [n for n in range(lo + 1, hi + 1)
                if smt.solve(self.pc + [_is_int(x, n, exact)], timeout_ms=3000, feas=True, want_model=False)[0] != "unsat"]

    def _some_int(self, x, exact, conds):
        t = T.var("_conc%d" % (len(T.ATOMS)))
        r, m, s = smt.solve(self.pc + conds + [T.eq0(t - x)], timeout_ms=4000, feas=True)
        if r == "unsat":
            return None
        if r != "sat" or m is None:
            raise Unknown()
        (mono, _), = t.p.items()
        v = m[0].get(T.ATOMS[mono[0][0]].name)
        if v is None:
            raise Unsupported("int() of a symbolic value (no model)")
        for cand in (int(v), int(round(v)), int(math.floor(v)), int(math.ceil(v))):
            c = _is_int(x, cand, exact)
            r2, _, _ = smt.solve(self.pc + conds + [c], timeout_ms=4000, feas=True, want_model=False)
            if r2 == "sat":
                return cand
        if exact:
            # no integer value at this model: is one possible at all?
            raise Unsupported("non-integer symbolic index")
        raise Unsupported("int() of a symbolic value")


class Unknown(Exception):
    pass


def _is_int(x, n, exact):
    if exact:
        return T.eq0(x - n)
    if n > 0:
        return T.and_(x >= n, x < n + 1)
    if n < 0:
        return T.and_(x > n - 1, x <= n)
    return T.and_(x > -1, x < 1)


# ------------------------------------------------------------------ concrete UFs
def _rng(*key):
    return random.Random(int(hashlib.sha256(repr(key).encode()).hexdigest()[:15], 16))


class ConcreteUF:
    def __init__(self, seed, table=None):
        self.seed = seed
        self.table = table or []
        self.par = {}

    def __call__(self, name, args, sign):
        args = [float(a) for a in args]
        for n, aa, v in self.table:
            if n == name and len(aa) == len(args) and all(abs(p - q) <= 1e-7 * (1 + abs(p)) for p, q in zip(aa, args)):
                return v
        k = (name, len(args))
        if k not in self.par:
            r = _rng(self.seed, name)
            self.par[k] = (r.uniform(-.5, .5), [(r.uniform(.5, 1.0), r.uniform(.6, 1.7), r.uniform(0, 6)) for _ in args],
                           r.uniform(.2, .6))
        c, ps, d = self.par[k]
        v = c
        pr = 1.0
        for x, (a, w, p) in zip(args, ps):
            if not math.isfinite(x):
                return float("nan")
            v += a * math.sin(w * x + p)
            pr *= math.cos(w * x - p)
        v += d * pr
        if sign == "pos":
            v = 0.3 + 0.8 / (1 + math.exp(-v)) + 0.05 * math.tanh(v)
        elif sign == "nonneg":
            v = abs(v)
        elif sign == "neg":
            v = -(0.3 + 0.8 / (1 + math.exp(-v)))
        return v


# ------------------------------------------------------------------ harness object
class H:
    def __init__(self, sym, tier="quick", seed=1, env=None, ex=None, ufs=None, rng=None):
        self.sym = sym
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.env = dict(env or {})
        self.ex = ex
        self.rng = rng or random.Random(seed)
        self.ufs = ufs or ConcreteUF(seed)
        self.records = []         # (label, [values])
        self.failed = []          # concrete failures
        self.obl = None           # obligation sink (symbolic)
        self.notes = []
        self.decls = {}
        if sym:
            from .loader import _shared_np
            self.np = _shared_np()
        else:
            self.np = np

    # ---- values
    @property
    def pi(self):
        return T.PI if self.sym else math.pi

    def const(self, name):
        """physical constants q_e, hbar, k_B, m_e"""
        c = T.CONSTS[name]
        return c if self.sym else T.ev(c, {})

    def real(self, name, lo=-2.0, hi=2.0, bounded=False):
        """unconstrained real (lo,hi only guide sampling unless bounded)"""
        if self.sym:
            self.decls[name] = (lo, hi)
            v = T.var(name)
            if bounded:
                self.ex.add(v >= lift(lo))
                self.ex.add(v <= lift(hi))
            return v
        v = self.env.get(name)
        if v is None:
            v = self.env[name] = self.rng.uniform(lo, hi)
        if bounded and not (lo <= v <= hi):
            raise Skip()
        return v

    def pos(self, name, lo=0.3, hi=2.5):
        if self.sym:
            return T.var(name, "pos")
        v = self.env.get(name)
        if v is None:
            v = self.env[name] = self.rng.uniform(lo, hi)
        if v <= 0:
            raise Skip()
        return v

    def integer(self, name, lo, hi):
        """an integer in [lo, hi], enumerated by the solver when the code needs its value"""
        if self.sym:
            v = T.var(name, integer=True)
            self.ex.add(v >= lo)
            self.ex.add(v <= hi)
            return v
        v = self.env.get(name)
        if v is None:
            v = self.env[name] = self.rng.randint(lo, hi)
        v = int(round(v))
        if not lo <= v <= hi:
            raise Skip()
        return v

    def choice(self, name, values):
        """one of the listed python values (forks)"""
        if self.sym:
            v = T.var(name, integer=True)
            self.ex.add(v >= 0)
            self.ex.add(v <= len(values) - 1)
            return values[self.ex.concretise(v, True)]
        return values[self.integer(name, 0, len(values) - 1)]

    def reals(self, name, shape, pos=False, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            n = name + "_" + "_".join(map(str, i))
            out[i] = self.pos(n, **k) if pos else self.real(n, **k)
        return out.view(SArr) if self.sym else out.astype(float)

    def arr(self, x):
        return sarr(x) if self.sym else np.array(x, dtype=float)

    def uf(self, name, sign=None):
        """an uninterpreted function of reals, applied elementwise"""
        if self.sym:
            def f(*a):
                a = [sarr(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in a]
                if any(isinstance(x, np.ndarray) for x in a):
                    return _map(lambda *v: T.uf(name, v, sign), *a)
                return T.uf(name, a, sign)
            return f

        def g(*a):
            if any(isinstance(x, (np.ndarray, list)) for x in a):
                bs = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in a])
                out = np.empty(bs[0].shape)
                for i in np.ndindex(*bs[0].shape):
                    out[i] = self.ufs(name, [b[i] for b in bs], sign)
                return out if out.ndim else float(out)
            return self.ufs(name, a, sign)
        return g

    def ind(self, c):
        if self.sym:
            return T.to_SB(c).as_R()
        return 1.0 if c else 0.0

    def q(self, n, d=1):
        return R.const(T.F(n, d)) if self.sym else n / d

    def num(self, text):
        """exact decimal"""
        return R.const(T.F(text)) if self.sym else float(text)

    def rounding(self, on=True):
        """np.arange counts with a rounded quotient from now on (only there: the rest stays exact)"""
        if not self.sym:
            return

        def delta():
            d = T.var("_round%d" % len(T.ATOMS))
            b = R.const(T.F(1, 2 ** 50))
            self.ex.add(d <= b)
            self.ex.add(d >= -b)
            return d
        arrays.ROUND = delta if on else None

    # ---- assumptions
    def assume(self, c):
        if self.sym:
            self.ex.add(T.to_SB(c))
        elif not c:
            raise Skip()

    def nonzero(self, *xs):
        for x in xs:
            if self.sym:
                self.ex.add(~T.eq0(lift(x)))
            elif abs(x) < 1e-9:
                raise Skip()

    # ---- modules
    def load(self, name, stubs=None):
        w = World(self.sym, stubs or {})
        self.world = w
        return w.load("cuprates_transport." + name)

    def world_of(self, stubs=None):
        self.world = World(self.sym, stubs or {})
        return self.world

    # ---- assertions
    def eq(self, label, got, want, scale=None, tol=1e-6):
        """got == want, elementwise, for all values on this path"""
        gs, ws = _shape(got), _shape(want)
        if gs != ws:
            return self._fail(label, "shape %s instead of %s" % (gs, ws))
        g, w = _flat(got), _flat(want)
        if self.sym:
            self.obl.eq(self, label, g, w)
            self.records.append((label, g))
            return True
        self.records.append((label, g))
        ok = True
        mags = [abs(float(v)) for v in g + w if _num(v) and math.isfinite(float(v))]
        top = max(mags + [0.0])
        for i, (a, b) in enumerate(zip(g, w)):
            a, b = _c(a), _c(b)
            if a is None or b is None:
                if a is not b:
                    return self._fail(label, "%r instead of %r" % (a, b))
                continue
            s = max(abs(a), abs(b), (scale or 0.0), 1e-6 * top)
            if math.isnan(a) or not (abs(a - b) <= tol * s or (math.isinf(b) and a == b)):
                if math.isnan(a) and math.isnan(b):
                    continue
                ok = self._fail(label, "element %d: got %r, expected %r" % (i, a, b))
                break
        return ok

    def le(self, label, a, b, tol=1e-9):
        if _shape(a) != _shape(b) and _shape(b) != ():
            return self._fail(label, "shapes %s %s" % (_shape(a), _shape(b)))
        a = _flat(a)
        b = _flat(b)
        if len(b) == 1:
            b = b * len(a)
        if self.sym:
            self.obl.true(self, label, T.and_(*[lift(x) <= lift(y) for x, y in zip(a, b)]))
            return True
        for x, y in zip(a, b):
            if not x <= y + tol * max(abs(x), abs(y)):
                return self._fail(label, "%r <= %r does not hold" % (x, y))
        return True

    def true(self, label, c):
        if self.sym:
            c = T.to_SB(c) if not isinstance(c, (bool, np.bool_)) else T.SB_const(bool(c))
            if c.kind == "c":
                if not c.args:
                    return self._fail(label, "is false")
                self.obl.const_true(label)
                return True
            self.obl.true(self, label, c)
            return True
        if not bool(c):
            return self._fail(label, "is false")
        return True

    def same(self, label, a, b):
        """plain python equality of concrete objects"""
        ok = (a is b) or (type(a) == type(b) and a == b) or (_isnum(a) and _isnum(b) and a == b)
        if isinstance(ok, SB):
            return self.true(label, ok)
        if not ok:
            return self._fail(label, "%r instead of %r" % (a, b))
        if self.sym:
            self.obl.const_true(label)
        return True

    def fail(self, label, why):
        return self._fail(label, why)

    def known(self, label, got, want, known_want, tag):
        """got == want, or exactly the recorded deviation `known_want`"""
        if self.sym:
            self.obl.known(self, label, _flat(got), _flat(want), _flat(known_want), tag)
            self.records.append((label, _flat(got)))
            return
        n = len(self.failed)
        if not self.eq(label, got, want):
            del self.failed[n:]
            self.records.pop()
            if self.eq(label, got, known_want):
                self.notes.append(tag)

    def _fail(self, label, why):
        if self.sym:
            self.obl.definite(self, label, why)
            return False
        self.failed.append((label, why))
        return False


def _isnum(x):
    return isinstance(x, (int, float, np.number, R, bool))


def _num(x):
    try:
        float(x)
        return True
    except (TypeError, ValueError):
        return False


def _c(x):
    if x is None:
        return None
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def _shape(x):
    if isinstance(x, (R, SB)) or x is None or isinstance(x, (int, float, str)):
        return ()
    if isinstance(x, (list, tuple)):
        x = sarr(x) if has_sym(x) else np.array(x, dtype=object) if any(i is None for i in x) else np.array(x)
    return tuple(np.shape(x.view(np.ndarray) if isinstance(x, SArr) else x))


def _flat(x):
    if isinstance(x, (R, SB)) or x is None or isinstance(x, (int, float)):
        return [x]
    if isinstance(x, (list, tuple)):
        out = []
        for i in x:
            out.extend(_flat(i))
        return out
    if isinstance(x, np.ndarray):
        return list(np.asarray(x).view(np.ndarray).reshape(-1).tolist()) if x.ndim else [x.item()]
    return [x]


# ------------------------------------------------------------------ obligations
class Obligations:
    def __init__(self, case):
        self.case = case
        self.cache = set()

    def const_true(self, label):
        self.case.labels[label] = self.case.labels.get(label, 0) + 1

    def definite(self, h, label, why):
        self.case.candidate(h, label, why, None)

    def eq(self, h, label, g, w):
        self.const_true(label)
        pairs = []
        for a, b in zip(g, w):
            if a is None or b is None or isinstance(a, (float, str)) or isinstance(b, (float, str)):
                if isinstance(a, float) and not (math.isnan(a) or math.isinf(a)):
                    a = lift(a)
                if isinstance(b, float) and not (math.isnan(b) or math.isinf(b)):
                    b = lift(b)
                if not (isinstance(a, R) or isinstance(b, R)):
                    if not (a == b or (a != a and b != b)):
                        return self.definite(h, label, "%r instead of %r" % (a, b))
                    continue
                if not (isinstance(a, (R, int, SB)) and isinstance(b, (R, int, SB))):
                    return self.definite(h, label, "%r instead of %r" % (a, b))
            a, b = lift(a), lift(b)
            if (a.key, b.key) in self.cache:
                continue
            pairs.append((a, b))
        if not pairs:
            return
        cleared = []
        hard = []
        for a, b in pairs:
            try:
                l, r = clear(a, b)
            except Unsupported as e:
                # too many distinct denominators: left to the concrete runs
                self.case.candidate(h, label, str(e), None)
                continue
            if (l - r).p:
                hard.append((a, b, l, r))
            else:
                cleared.append((l, r))
                self.cache.add((a.key, b.key))
        if cleared:
            # independent of the path condition
            res, _, s = smt.solve([], cleared, timeout_ms=60000)
            self.case.cross(s, res)
            if res != "unsat":
                self.case.candidate(h, label, "solver: %s" % res, None)
        for a, b, l, r in hard:
            self.decide(h, label, a, b, [(l, r)])

    def decide(self, h, label, a, b, extra, quiet=False):
        pc = h.ex.pc
        verdict, model = self.query(pc, extra, self.case.timeout)
        if verdict == "unsat":
            return True
        if quiet:
            return False
        self.case.candidate(h, label, "%s: %s vs %s" % (verdict, T.show(a, 6), T.show(b, 6)), model)
        return False

    def query(self, pc, extra, timeout_ms, conds=()):
        res, model, s = smt.solve(list(pc) + list(conds), extra, timeout_ms=timeout_ms)
        self.case.cross(s, res)
        if res != "unsat":
            ax = smt.congruence(list(pc) + list(conds), extra)
            if ax:
                res2, model2, s2 = smt.solve(list(pc) + list(conds), extra, timeout_ms=timeout_ms, congr=ax)
                self.case.cross(s2, res2)
                res, model = (res2, model2) if res2 != "unknown" else (res, model)
            if res == "sat":
                # prefer a tame counterexample with a clear difference
                for tame, gap in ((True, 1), (True, None), (False, 1)):
                    if gap and extra is None:
                        continue
                    r3, m3, _ = smt.solve(list(pc) + list(conds), extra, timeout_ms=3000, congr=ax, tame=tame, gap=gap, feas=True)
                    if r3 == "sat" and m3 is not None:
                        model = m3
                        break
        return res, model

    def true(self, h, label, c):
        self.const_true(label)
        if c.kind == "c":
            if not c.args:
                self.definite(h, label, "is false")
            return
        if c.key in self.cache:
            return
        res, model = self.query(h.ex.pc, None, self.case.timeout, [T.not_(c)])
        if res != "unsat":
            self.case.candidate(h, label, "%s: not(%s)" % (res, T.show_sb(c)[:300]), model)

    def known(self, h, label, g, w, k, tag):
        if len(g) == len(w) and all(self._q(h, a, b) for a, b in zip(g, w)):
            self.const_true(label)
            return
        if len(g) == len(k) and all(self._q(h, a, b) for a, b in zip(g, k)):
            self.const_true(label)
            self.case.known_hits.add(tag)
            return
        self.case.candidate(h, label, "neither the required value nor the recorded deviation", None)

    def _q(self, h, a, b):
        if isinstance(a, float) or isinstance(b, float) or a is None or b is None:
            return False
        a, b = lift(a), lift(b)
        l, r = clear(a, b)
        return self.query(h.ex.pc, [(l, r)], self.case.timeout)[0] == "unsat"


_MARK = []


def clear(a, b):
    """(a*D, b*D) with a common non-zero denominator D cleared"""
    if not _MARK:
        _MARK.append(T.var("_mark_l"))
        _MARK.append(T.var("_mark_r"))
    if a.p == b.p:
        return a, b
    m1, m2 = _MARK
    if len(a.p) + len(b.p) > 200:
        # a large sum: clear the denominators of the difference, separately for each combination of the other factors
        d = (a - b).p
        dens = {t[0] for m in d for t in m if t[1] < 0 and T.ATOMS[t[0]].kind == "den"}
        inner, todo = set(dens), list(dens)
        while todo:
            for x in T.ATOMS[todo.pop()].args:
                for m in (x.p if isinstance(x, R) else ()):
                    for t in m:
                        if t[0] not in inner:
                            inner.add(t[0])
                            todo.append(t[0])
        groups = {}
        for m, c in d.items():
            groups.setdefault(tuple(t for t in m if t[0] not in inner), {})[tuple(t for t in m if t[0] in inner)] = c
        if all(not T.together(R(g)).p for g in groups.values()):
            return T.ZERO, T.ZERO
    try:
        x = T.together(a * m1 + b * m2)
    except Unsupported:
        # what they do not share may be much smaller
        return T.together(a - b), T.ZERO
    (k1, _), = m1.p.items()
    (k2, _), = m2.p.items()
    i1, i2 = k1[0][0], k2[0][0]
    l, r = {}, {}
    for m, c in x.p.items():
        d = dict(m)
        tgt = l if i1 in d else r
        tgt[tuple(t for t in m if t[0] not in (i1, i2))] = c
    return R(l), R(r)


# ------------------------------------------------------------------ a case = harness + exploration
class Case:
    def __init__(self, name, fn, tier, seed, budget=240.0, max_paths=600, timeout=8000, tries=24, validate=2):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.seed = seed
        self.budget = budget
        self.max_paths = max_paths
        self.timeout = timeout
        self.tries = tries
        self.validate = validate
        self.labels = {}
        self.cands = []
        self.undecided = []
        self.violations = []
        self.known_hits = set()
        self.paths = []
        self.infeasible = 0
        self.validated = 0
        self.validation_issue = []
        self.functions = set()
        self.ncross = 0
        self.exploring, self.early, self.tried = False, 0, 0

    def cross(self, solver, res):
        if self.tier == "thorough" and self.ncross < 6 and res in ("sat", "unsat"):
            self.ncross += 1
            try:
                smt.cross_check(solver, res, 5000)
            except Exception as e:  # cvc5 could not read the query
                self.notes_cross = repr(e)[:100]

    def candidate(self, h, label, why, model):
        if len([c for c in self.cands if c[0] == label]) >= 4:
            return
        self.cands.append((label, why, model, list(h.ex.pc)))
        if self.exploring and time.time() > self.early and self.early_replay():
            raise Found()

    def early_replay(self):
        """is one of the candidates so far real already?"""
        saved = T.BRANCH, T.CONCRETISE, T.SMALLINT, arrays.ROUND
        T.BRANCH = T.CONCRETISE = T.SMALLINT = arrays.ROUND = None
        kept, und = list(self.cands), list(self.undecided)
        self.cands = kept[self.tried:]
        self.replay_candidates()
        self.cands, self.undecided, self.tried = kept, und, len(kept)
        T.BRANCH, T.CONCRETISE, T.SMALLINT, arrays.ROUND = saved
        self.early = time.time() + 20
        return bool(self.violations)

    # -------------------------------------------------------------- symbolic
    def explore(self):
        t0 = time.time()
        ex = Explorer(self.max_paths, t0 + self.budget)
        obl = Obligations(self)
        n = 0
        self.early, self.exploring = t0 + 10, True
        try:
            while ex.stack:
                if n >= self.max_paths or time.time() > ex.deadline:
                    self.undecided.append(("paths", "path budget exhausted after %d paths" % n))
                    break
                if self.cands and time.time() > self.early and self.early_replay():
                    break
                prefix = ex.stack.pop()
                ex.start(prefix)
                T.BRANCH = ex.branch
                T.CONCRETISE = ex.concretise
                T.SMALLINT = ex.small_int
                arrays.ROUND = None
                h = H(True, self.tier, self.seed, ex=ex)
                h.obl = obl
                try:
                    self.fn(h)
                    self.paths.append((ex.pc, h.records))
                    n += 1
                except Infeasible:
                    self.infeasible += 1
                except Budget:
                    self.undecided.append(("time", "time budget exhausted after %d paths" % n))
                    break
                except Unsupported as e:
                    n += 1
                    self.undecided.append(("encoding", "%s @ %s" % (e, _where_tb(e))))
                    self.candidate(h, "encoding", str(e), None)
                except RecursionError as e:
                    if os.environ.get("SYMX_TRACE"):
                        import traceback
                        print(traceback.format_exc()[:6000])
                    n += 1
                    self.undecided.append(("encoding", "recursion"))
                    self.candidate(h, "encoding", str(e), None)
                except Exception as e:
                    n += 1
                    r = smt.solve(ex.pc, timeout_ms=4000)
                    self.candidate(h, "exception", "%s: %s @ %s" % (type(e).__name__, str(e)[:200], _where_tb(e)), r[1])
                    if r[0] == "unsat":
                        self.cands.pop()
        except Found:
            pass
        finally:
            self.exploring = False
            T.BRANCH = None
            T.CONCRETISE = None
            T.SMALLINT = None
        self.wall = time.time() - t0

    # -------------------------------------------------------------- concrete
    def concrete(self, env=None, seed=0, table=None, record=False):
        rng = random.Random((self.seed * 1000003 + seed) & 0xffffffff)
        ufs = ConcreteUF(self.seed * 7919 + seed, table)
        h = H(False, self.tier, self.seed, env=env, ufs=ufs, rng=rng)
        if record:
            sys.setprofile(self._prof)
        try:
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.fn(h)
        finally:
            if record:
                sys.setprofile(None)
        return h

    def _prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code
            if f.co_filename.startswith(REPO + "/cuprates_transport"):
                self.functions.add("%s:%s" % (f.co_filename[len(REPO) + 20:-3], f.co_qualname))

    def try_concrete(self, env, seed, table, want=None):
        """a reproduced failure [(label, why), ...] or None"""
        try:
            h = self.concrete(env, seed, table)
        except Skip:
            return None
        except (OverflowError, FloatingPointError):
            return None
        except Exception as e:
            if _violates(e):
                return [("exception", "%s: %s @ %s" % (type(e).__name__, str(e)[:200], _where_tb(e)))], {}
            self.interface(e)
            return None
        if h.failed:
            return h.failed, h.env
        return None

    def replay_candidates(self):
        for label, why, model, pc in self.cands:
            hit = None
            if model is None and pc:
                # inputs that take this path
                model = smt.solve(pc, timeout_ms=4000, tame=True)[1] or smt.solve(pc, timeout_ms=4000)[1]
            if model is not None:
                env = {k: v for k, v in model[0].items() if not k.startswith("_") and k not in T.CONSTS}
                for s in range(3):
                    table = self._table(model, env, s)
                    hit = self._attempt(env, s, table)
                    if hit:
                        hit = hit + (env, s, [list(t) for t in table])
                        break
            if not hit:
                for s in range(self.tries):
                    env = {}
                    if model is not None and s % 2 == 0:
                        pcv = set()
                        for c in pc:
                            pcv |= {T.ATOMS[a].name for a in T.atoms_of(c) if T.ATOMS[a].kind == "var"}
                        env = {k: v for k, v in model[0].items() if k in pcv and k not in T.CONSTS and not k.startswith("_")}
                    hit = self._attempt(env, 100 + s, None)
                    if hit:
                        hit = hit + (env, 100 + s, None)
                        break
            if hit:
                fails, henv, env, s, table = hit
                self.violations.append({"case": self.name, "label": fails[0][0], "why": fails[0][1], "solver": why,
                                        "symbolic_label": label, "inputs": dict(henv or env), "env": dict(env), "seed": s,
                                        "uf_table": table})
            else:
                self.undecided.append((label, why))

    def interface(self, e):
        """the harness itself could not drive the code (an internal name or signature is different)"""
        u = ("interface", "%s: %s @ %s" % (type(e).__name__, str(e)[:200], _where_tb(e)))
        if u not in self.undecided:
            self.undecided.append(u)

    def _attempt(self, env, s, table):
        try:
            r = self.try_concrete(dict(env), s, table)
        except Unsupported:
            return None
        return r

    def _table(self, model, env, s):
        """the function values of a model; inputs it leaves open are fixed in env"""
        ufs = model[1]
        table = []
        cuf = ConcreteUF(self.seed * 7919 + s, table)
        for a in sorted(ufs):
            A = T.ATOMS[a]
            for x in A.args:
                for v in (T.atoms_of(x) if isinstance(x, R) else ()):
                    v = T.ATOMS[v]
                    if v.kind == "var" and v.value is None and v.name not in env and not v.name.startswith("_"):
                        env[v.name] = 1.0 if v.sign == "pos" else 0.5
            try:
                args = [T.ev(x, env, lambda n, ar, sg: cuf(n, ar, sg)) for x in A.args]
            except Exception:
                continue
            table.append((A.name, args, ufs[a]))
        return table

    def validate_encoding(self):
        got = 0
        for s in range(40):
            if got >= self.validate:
                break
            try:
                h = self.concrete({}, 500 + s, None, record=True)
            except Skip:
                continue
            except Exception as e:
                if _violates(e):
                    self.cands.append(("exception", "concrete run: %s" % e, None, []))
                else:
                    self.interface(e)
                break
            got += 1
            if h.failed:
                self.violations.append({"case": self.name, "label": h.failed[0][0], "why": h.failed[0][1],
                                        "solver": "found while replaying the encoding", "inputs": dict(h.env),
                                        "env": {}, "seed": 500 + s, "uf_table": None})
                break
            ufs = ConcreteUF(self.seed * 7919 + 500 + s, None)
            matched = None
            for pc, recs in self.paths:
                memo = {}
                try:
                    if all(T.ev_sb(c, h.env, lambda n, a, g: ufs(n, a, g), memo) for c in pc):
                        matched = recs
                        break
                except Exception:
                    continue
            if matched is None:
                self.validation_issue.append("no symbolic path matches concrete run %d" % s)
                continue
            memo = {}
            bad = None
            conc = {}
            for l, g in h.records:
                conc.setdefault(l, []).append(g)
            seen = {}
            for l, g in matched:
                k = seen.get(l, 0)
                seen[l] = k + 1
                cg = conc.get(l, [])
                if k >= len(cg) or len(cg[k]) != len(g):
                    bad = "%s: different shape" % l
                    break
                top = max([abs(float(c)) for c in cg[k] if _num(c) and math.isfinite(float(c))] + [0.0])
                for x, y in zip(g, cg[k]):
                    if isinstance(x, (R, SB)) and _num(y):
                        v = T.ev(lift(x), h.env, lambda n, a, gg: ufs(n, a, gg), memo=memo)
                        y = float(y)
                        if not abs(v - y) <= 1e-4 * max(abs(v), abs(y), 1e-3 * top) and not (abs(v) < 1e-9 and abs(y) < 1e-9 and top > 1e-6):
                            if not (abs(v) + abs(y) < 1e-12):
                                bad = "%s: symbolic %r, real code %r" % (l, v, y)
                                break
                if bad:
                    break
            if bad:
                self.validation_issue.append(bad)
            else:
                self.validated += 1

    def run(self):
        q0 = dict(smt.STATS)
        self.explore()
        self.validate_encoding()
        self.replay_candidates()
        st = {k: smt.STATS[k] - q0[k] if k != "max_query_s" else smt.STATS[k] for k in smt.STATS}
        return {"name": self.name, "paths": len(self.paths), "infeasible": self.infeasible, "labels": self.labels,
                "undecided": self.undecided[:20], "violations": self.violations[:3], "known": sorted(self.known_hits),
                "stats": st, "functions": sorted(self.functions), "validated": self.validated,
                "validation_issue": self.validation_issue[:4], "wall": round(self.wall, 2),
                "candidates": [(c[0], c[1]) for c in self.cands[:6]]}


def _in_repo(e):
    tb = e.__traceback__
    files = [f.filename for f in traceback.extract_tb(tb)]
    return any(f.startswith(REPO + "/cuprates_transport") for f in files)


def _violates(e):
    """a crash inside the code under test, or a result of unexpected form; not a missing internal name"""
    return _in_repo(e) or isinstance(e, (IndexError, KeyError, ValueError, ArithmeticError, SystemExit))


def _where_tb(e):
    fr = traceback.extract_tb(e.__traceback__)
    for f in reversed(fr):
        if f.filename.startswith(REPO + "/cuprates_transport"):
            return "%s:%d %s" % (f.filename[len(REPO) + 1:], f.lineno, f.name)
    f = fr[-1]
    return "%s:%d %s" % (f.filename.split("/")[-1], f.lineno, f.name)
