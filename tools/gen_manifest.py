"""writes MANIFEST.json from the checks present"""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C31": "the integrator is SciPy's compiled LSODA (Fortran) on floating point; its step control cannot be encoded "
           "within reach, and a claim about its error is a numerical-analysis proof, not a solver query",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i + ".py")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the real Python source (re-read every run) with SMT (z3) verdicts on every "
                         "path; counterexamples replayed on the unmodified code",
            "level": "model_checking",
            "level_note": "Holds for every real value of the symbolic inputs within the array sizes and histories listed in "
                          "the check's BOUNDS (see evidence); exact real arithmetic, so floating-point rounding is outside; "
                          "third-party numerics are arbitrary-result stubs or modelled array operations, validated against "
                          "concrete runs of the real code on every run."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo; repairs of genuine defects are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
