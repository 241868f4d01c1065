#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--case NAME] [--replay FILE]

Decides one property of /repo's current working tree by symbolic execution of the real
source and SMT queries.  Exit 0: held; 1: violated (VIOLATION line); 2: nothing decided.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["NUMBA_DISABLE_JIT"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.setrecursionlimit(20000)


def child(prop, name, tier, seed, out):
    """one case, in its own process; the result goes through a pipe"""
    import resource
    lim = 9 * 2 ** 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        from symx.engine import Case
        mod = importlib.import_module("checks." + prop)
        for c in mod.cases(tier):
            if c[0] == name:
                opts = dict(c[2]) if len(c) > 2 else {}
                if tier == "quick":
                    opts.setdefault("budget", 120.0)
                res = Case(c[0], c[1], tier, seed, **opts).run()
                break
    except BaseException:
        res = {"name": name, "error": traceback.format_exc()[-3000:]}
    data = json.dumps(res, default=str)
    with open(out, "w") as f:
        f.write(data)
    os._exit(0)


def run_cases(prop, names, tier, seed, jobs, budget, rundir):
    pend = list(names)
    live = {}
    res = {}
    start = time.time()
    end = start + budget
    found = False
    while pend or live:
        while pend and len(live) < jobs and time.time() < end:
            n = pend.pop(0)
            out = os.path.join(rundir, "case_%d.json" % len(res) + "_%d" % len(live) + "_%s" % time.time())
            pid = os.fork()
            if pid == 0:
                child(prop, n, tier, seed, out)
            live[pid] = (n, out)
        if found and time.time() > start + 100:
            end = min(end, time.time() - 1)      # a violation is established: the other cases need not finish
        if time.time() > end:
            for pid, (n, out) in live.items():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                res[n] = {"name": n, "error": "time budget of the check exhausted"}
            for n in pend:
                res[n] = {"name": n, "error": "not started: time budget of the check exhausted"}
            break
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            continue
        n, out = live.pop(pid)
        try:
            with open(out) as f:
                res[n] = json.load(f)
        except Exception:
            res[n] = {"name": n, "error": "case process died (status %s)" % st}
        found = found or bool(res[n].get("violations"))
    return [res[n] for n in names]


def load_known(prop):
    tags = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                _, _, rest = line.partition("property=%s " % prop)
                tag, _, text = rest.partition(" ")
                tags[tag] = text
    return tags


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    sys.path.insert(0, HERE)
    from symx.engine import Case
    mod = importlib.import_module("checks." + prop)
    for c in mod.cases(d.get("tier", "quick")):
        if c[0] == d["case"]:
            case = Case(c[0], c[1], "quick", d["base_seed"])
            tab = [(t[0], t[1], t[2]) for t in d["uf_table"]] if d.get("uf_table") else None
            r = case.try_concrete(dict(d["env"]), d["seed"], tab)
            if r:
                print("reproduced on the real code: %s -- %s" % r[0][0])
                return 1
            print("not reproduced")
            return 0
    print("no such case")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import tempfile
    import shutil
    rundir = tempfile.mkdtemp(prefix="symx_")
    os.chdir(rundir)
    # warm the imports shared by all case processes
    import numpy, scipy.constants, scipy.optimize, scipy.integrate, scipy.interpolate, sympy, skimage.measure  # noqa
    import sympy.utilities.lambdify  # noqa
    from symx import engine  # noqa
    mod = importlib.import_module("checks." + prop)
    names = [c[0] for c in mod.cases(tier) if not a.case or c[0] == a.case]
    budget = 660 if tier == "quick" else 6 * 3600
    try:
        results = run_cases(prop, names, tier, seed, int(os.environ.get("SYMX_JOBS", "7")), budget, rundir)
    finally:
        os.chdir(HERE)
        shutil.rmtree(rundir, ignore_errors=True)
    known = load_known(prop)
    code = 0
    viol, und, errs = [], [], []
    tot = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "feas": 0, "time": 0.0, "cross_checked": 0,
           "cross_disagree": 0}
    labels, funcs = {}, set()
    paths = infeas = val = 0
    hits = set()
    maxq = 0.0
    for r in results:
        if "error" in r:
            errs.append(r)
            continue
        paths += r["paths"]
        infeas += r["infeasible"]
        val += r["validated"]
        funcs |= set(r["functions"])
        maxq = max(maxq, r["stats"]["max_query_s"])
        for k in tot:
            tot[k] += r["stats"].get(k, 0)
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        viol.extend(r["violations"])
        und.extend((r["name"], u[0], u[1]) for u in r["undecided"])
        if not r["paths"] and not r["undecided"] and not r["violations"]:
            und.append((r["name"], "case", "no path was explored to its end"))
        hits |= set(r["known"])
    for r in errs:
        print("ERROR case=%s %s" % (r["name"], r["error"]))
        und.append((r["name"], "case", r["error"].strip().splitlines()[-1] if r["error"].strip() else "no result"))
    for t in sorted(hits):
        if t in known:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, t, known[t]))
        else:
            viol.append({"case": "known", "label": t, "why": "deviation %s is not listed in known_findings.txt" % t,
                         "env": {}, "seed": 0, "uf_table": None, "inputs": {}, "solver": ""})
    for n, l, w in und[:12]:
        print("UNDECIDED property=%s case=%s %s: %s" % (prop, n, l, str(w)[:160]))
    for r in results:
        for v in r.get("validation_issue", []):
            print("NOTE case=%s encoding validation: %s" % (r["name"], v))
    if a.v:
        for r in results:
            if "error" not in r:
                print("case %-28s paths %3d infeasible %2d validated %d wall %.1fs queries %d solver %.2fs max %.2fs %s" % (
                    r["name"], r["paths"], r["infeasible"], r["validated"], r["wall"], r["stats"]["queries"],
                    r["stats"]["time"], r["stats"]["max_query_s"], str(r["candidates"][:2] or "")[:150]))
    EVID = os.environ.get("SYMX_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(EVID, exist_ok=True)
    if viol:
        code = 1
        for i, v in enumerate(viol[:3]):
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s_%d.json" % (prop, i))
            v = dict(v, property=prop, tier=tier, base_seed=seed)
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  case %s, assertion %s: %s" % (v["case"], v["label"], v["why"]))
            print("  inputs: %s" % json.dumps(v["inputs"], default=str)[:600])
            print("  replay with: python3 run.py --replay %s" % p)
    decided = sum(labels.values())
    if not viol and (paths == 0 or decided == 0 or (len(errs) == len(results))):
        code = 2
    if not viol and 2 * sum("died" in r["error"] or "Traceback" in r["error"] for r in errs) > len(results):
        code = 2            # the machinery, not the code under test, failed on most of the cases
    if not viol and val == 0 and not und:
        print("ERROR no concrete execution of the real code matched a symbolic path")
        code = 2
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": paths, "transitions": sum(labels.values()),
              "traces_validated_against_impl": val,
              "explanation": "states: symbolic paths of the real source explored to the end, each standing for every "
                             "value of its symbolic inputs; transitions: assertions evaluated on those paths; "
                             "traces_validated_against_impl: concrete runs of the unmodified source whose observed "
                             "values equal the symbolic result of the matching path.",
              "cases": names, "infeasible_paths": infeas,
              "assertions": dict(sorted(labels.items())),
              "functions_encoded": sorted(funcs),
              "bounds": getattr(mod, "BOUNDS", ""),
              "outside_bounds": getattr(mod, "OUTSIDE", ""),
              "queries": {k: tot[k] for k in ("queries", "unsat", "sat", "unknown", "feas", "cross_checked",
                                               "cross_disagree")},
              "solver": "z3 (python API), cvc5 cross-check in the thorough tier",
              "solver_time_s": round(tot["time"], 3), "max_query_s": round(maxq, 3),
              "undecided": [list(map(str, u))[:3] for u in und[:20]],
              "case_errors": [[r["name"], r["error"][-300:]] for r in errs],
              "encoding_validation_notes": [v for r in results for v in r.get("validation_issue", [])][:10],
              "known_findings_seen": sorted(hits),
              "samples": [{"case": r["name"], "paths": r["paths"], "assertions": r["labels"], "queries": r["stats"]["queries"]}
                          for r in results if "error" not in r][:6]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
              "real arithmetic: floating-point rounding is outside the claim",
              "third-party numerics named in the assumptions are replaced by arbitrary-result stubs; numpy array "
              "operations are modelled by symx/arrays.py and validated against real numpy on every run"],
          "wall_s": round(wall, 2), "violations": len(viol)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d assertions, %d queries (%d unsat), %d validated runs, %d undecided, %.1fs -> exit %d" % (
        prop, tier, len(results), paths, decided, tot["queries"], tot["unsat"], val, len(und), wall, code))
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
