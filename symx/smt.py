"""Translation of terms to z3 and satisfiability queries."""
import sys
import time
import math
from fractions import Fraction as F

_SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _SP not in sys.path:
    sys.path.append(_SP)
import z3  # noqa: E402
from . import terms as T  # noqa: E402
from .terms import R, SB, ATOMS, Unsupported  # noqa: E402

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "feas": 0,
         "cross_checked": 0, "cross_disagree": 0, "max_query_s": 0.0}


class Enc:
    """encodes terms; collects the defining axioms of every atom used"""

    def __init__(self):
        self.v = {}
        self.inv = {}
        self.root = {}
        self.ax = []
        self.exps = []
        self.busy = set()

    def atom(self, a):
        if a in self.v:
            return self.v[a]
        A = ATOMS[a]
        nm = "%s_%d" % (A.name or A.kind, a)
        if A.kind in ("var", "uf") and A.integer:
            i = z3.Int(nm)
            x = z3.ToReal(i)
        elif A.kind in ("floor", "round"):
            i = z3.Int(nm)
            x = z3.ToReal(i)
        else:
            x = z3.Real(nm)
        if A.kind in ("den", "sqrtq", "ind", "abs") and False:
            pass
        self.v[a] = x
        ax = self.ax.append
        if A.sign == "pos":
            ax(x > 0)
        elif A.sign == "nonneg":
            ax(x >= 0)
        elif A.sign == "neg":
            ax(x < 0)
        k = A.kind
        if A.name == "pi" and k == "var":
            ax(x > z3.Q(31415926535, 10000000000))
            ax(x < z3.Q(31415926536, 10000000000))
        if k == "den":
            ax(x == self.expr(A.args[0]))
        elif k == "sqrtq":
            ax(x * x == self.expr(A.args[0]))
            s = math.sqrt(float(A.args[0].constant()))
            ax(x > z3.RealVal(F(s).limit_denominator(10 ** 9) - F(1, 10 ** 6)))
            ax(x < z3.RealVal(F(s).limit_denominator(10 ** 9) + F(1, 10 ** 6)))
        elif k == "cosq":
            c = math.cos(math.pi * float(A.args[0].constant()))
            ax(x > z3.RealVal(F(c).limit_denominator(10 ** 9) - F(1, 10 ** 6)))
            ax(x < z3.RealVal(F(c).limit_denominator(10 ** 9) + F(1, 10 ** 6)))
        elif k in ("cos", "sin"):
            other = "sin" if k == "cos" else "cos"
            o = T._TABLE.get((other, None, (A.args[0].key,)))
            ax(x >= -1)
            ax(x <= 1)
            if o is not None and o.id in self.v:
                y = self.v[o.id]
                ax(x * x + y * y == 1)
        elif k == "exp":
            arg = self.expr(A.args[0])
            ax(z3.Implies(arg <= 0, x <= 1))
            ax(z3.Implies(arg >= 0, x >= 1))
            ax(x >= 1 + arg)
            for b, barg in self.exps:
                y = self.v[b]
                ax(z3.Implies(arg <= barg, x <= y))
                ax(z3.Implies(arg >= barg, x >= y))
            self.exps.append((a, arg))
        elif k == "log":
            arg = self.expr(A.args[0])
            ax(z3.Implies(z3.And(arg > 0, arg <= 1), x <= 0))
            ax(z3.Implies(arg >= 1, x >= 0))
            c = A.args[0].constant()
            if c is not None:
                ax(x > z3.RealVal(F(math.log(c)).limit_denominator(10 ** 6) - F(1, 10 ** 5)))
                ax(x < z3.RealVal(F(math.log(c)).limit_denominator(10 ** 6) + F(1, 10 ** 5)))
        elif k == "abs":
            arg = self.expr(A.args[0])
            ax(z3.Or(x == arg, x == -arg))
        elif k == "floor":
            arg = self.expr(A.args[0])
            ax(x <= arg)
            ax(arg < x + 1)
        elif k == "round":
            arg = self.expr(A.args[0])
            ax(2 * x <= 2 * arg + 1)
            ax(2 * arg - 1 <= 2 * x)
        elif k == "ind":
            c = self.bool(A.args[0])
            ax(z3.If(c, x == 1, x == 0))
        elif k == "atan2":
            p = self.atom(T.PI_ID)
            ax(x <= p)
            ax(x > -p)
        return x

    def power(self, a, e):
        x = self.atom(a)
        e = F(e)
        if e.denominator == 2:
            s = self.root.get(a)
            if s is None:
                s = self.root[a] = z3.Real("root_%d" % a)
                self.ax.append(s * s == x)
                self.ax.append(s >= 0)
            base, n = s, int(e * 2)
            key = ("r", a)
        elif e.denominator == 1:
            base, n, key = x, int(e), ("a", a)
        else:
            raise Unsupported("power %s in smt" % e)
        if n < 0:
            i = self.inv.get(key)
            if i is None:
                i = self.inv[key] = z3.Real("inv_%s_%d" % key)
                self.ax.append(i * base == 1)
                if ATOMS[a].sign == "pos" or key[0] == "r":
                    self.ax.append(i > 0)
            base, n = i, -n
        r = base
        for _ in range(n - 1):
            r = r * base
        return r

    def expr(self, r):
        ts = []
        for m, c in r.p.items():
            t = None
            for a, e in m:
                p = self.power(a, e)
                t = p if t is None else t * p
            cc = z3.Q(c.numerator, c.denominator)
            if t is None:
                t = cc
            elif c != 1:
                t = cc * t
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def bool(self, s):
        k = s.kind
        if k == "c":
            return z3.BoolVal(s.args)
        if k in ("le", "lt", "eq"):
            e = self.expr(s.args)
            return e <= 0 if k == "le" else e < 0 if k == "lt" else e == 0
        if k == "not":
            return z3.Not(self.bool(s.args))
        xs = [self.bool(a) for a in s.args]
        return z3.And(*xs) if k == "and" else z3.Or(*xs)


def _val(x):
    if z3.is_int_value(x):
        return float(x.as_long())
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    return None


def model_env(m, enc):
    env, ufs = {}, {}
    for a, x in enc.v.items():
        A = ATOMS[a]
        if A.kind not in ("var", "uf"):
            continue
        try:
            v = _val(m.eval(x, model_completion=True))
        except Exception:
            v = None
        if v is None:
            continue
        if A.kind == "var":
            env[A.name] = v
        else:
            ufs[a] = v
    return env, ufs


def congruence(conds, extra):
    """pairs of function atoms that may be applied to equal arguments"""
    acc = set()
    for c in conds:
        T.atoms_of(c, acc)
    for a, b in extra or ():
        T.atoms_of(a, acc)
        T.atoms_of(b, acc)
    groups = {}
    for a in acc:
        A = ATOMS[a]
        if A.args and A.kind not in ("ind", "den", "floor", "round"):
            groups.setdefault((A.kind, A.name, len(A.args)), []).append(a)
        elif A.kind in ("floor", "round"):
            groups.setdefault((A.kind, None, 1), []).append(a)
    out = []
    for g in groups.values():
        g.sort()
        for i in range(len(g)):
            for j in range(i):
                out.append((g[j], g[i]))
                if len(out) > 400:
                    return out
    return out


def solve(conds, extra=None, timeout_ms=8000, feas=False, want_model=True, congr=None, tame=False, gap=None):
    """conds: SB list.  extra: list of (lhs R, rhs R) asserted different (any)."""
    enc = Enc()
    zs = [enc.bool(c) for c in conds]
    for a, b in congr or ():
        A, B = ATOMS[a], ATOMS[b]
        same = [enc.expr(x) == enc.expr(y) for x, y in zip(A.args, B.args)]
        zs.append(z3.Implies(z3.And(*same), enc.atom(a) == enc.atom(b)))
    if extra is not None:
        es = [(enc.expr(a), enc.expr(b)) for a, b in extra]
        dis = [z3.Or(a - b >= gap, b - a >= gap) if gap else a != b for a, b in es]
        zs.append(z3.Or(*dis) if len(dis) > 1 else dis[0])
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for z in zs:
        s.add(z)
    if tame:
        for a, x in list(enc.v.items()):
            if ATOMS[a].kind in ("var", "uf") and ATOMS[a].value is None and not ATOMS[a].integer:
                zs.append(x <= 10)
                zs.append(x >= -10)
                if ATOMS[a].sign == "pos":
                    zs.append(x >= z3.Q(1, 20))
        for z in zs:
            s.add(z)
    # axioms may grow while encoding; add after
    for z in enc.ax:
        s.add(z)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS["time"] += dt
    STATS["max_query_s"] = max(STATS["max_query_s"], dt)
    STATS["feas" if feas else "queries"] += 1
    res = str(r)
    if not feas:
        STATS[res] += 1
    mod = None
    if res == "sat" and want_model:
        try:
            mod = model_env(s.model(), enc)
        except z3.Z3Exception:
            mod = None
    return res, mod, s


def cross_check(solver, expected, timeout_ms=20000):
    """re-decide a query with cvc5; returns its verdict"""
    import cvc5
    text = "(set-logic ALL)\n" + solver.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
    except AttributeError:
        slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(timeout_ms))
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
    sm = p.getSymbolManager()
    out = "unknown"
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        r = str(c.invoke(slv, sm)).strip()
        if r in ("sat", "unsat", "unknown"):
            out = r
    STATS["cross_checked"] += 1
    if out in ("sat", "unsat") and out != expected and expected in ("sat", "unsat"):
        STATS["cross_disagree"] += 1
    return out
