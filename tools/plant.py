#!/opt/venv/bin/python
"""Build /verif/seeded/<id>/ from tools/seeds.py and try it: python tools/plant.py [id ...] [--check]

For each seed: applies the edits to /repo's HEAD in a scratch copy (line endings kept), writes patch.diff, demo.sh, demo.py
and meta.json, runs the demo on the clean and the patched copy, the stable tests on /repo with the patch applied
(undone straight afterwards) and, with --check, this property's check on the patched copy.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS, PRELUDE
REPO, OUT, PY = "/repo", os.path.join(os.path.dirname(HERE), "seeded"), "/opt/venv/bin/python"
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_NUM_THREADS=2
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def stable():
    sh(["bash", "/opt/vp/test.sh", "/tmp/plant_tests.json"])
    passed = json.load(open("/tmp/plant_tests.json"))["passed"]
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(passed)


def build(name, seed, check):
    out = os.path.join(OUT, name)
    os.makedirs(out, exist_ok=True)
    work = "/tmp/plant_" + name
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(REPO, work, symlinks=True)
    try:
        for fname, old, new in seed["edits"]:
            path = os.path.join(work, "cuprates_transport", fname)
            data = open(path, newline="").read()
            crlf = "\r\n" in data
            text = data.replace("\r\n", "\n")
            if text.count(old) != seed.get("count", 1):
                return "EDIT x%d: %r" % (text.count(old), old)
            text = text.replace(old, new)
            open(path, "w", newline="").write(text.replace("\n", "\r\n") if crlf else text)
        diff = subprocess.run(["git", "-C", work, "diff"], capture_output=True).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(PRELUDE + seed["demo"])
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        res = []
        moved = "/tmp/plant_demo_" + name
        shutil.rmtree(moved, ignore_errors=True)
        shutil.copytree(out, moved)
        for where in (REPO, work):
            r = sh(["bash", moved + "/demo.sh"], cwd=where, timeout=300)
            res.append(r.returncode)
            tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
            res.append((tail or [""])[0][:100])
        shutil.rmtree(moved)
        if "--tests" in sys.argv:
            r = subprocess.run(["git", "-C", REPO, "apply", os.path.join(out, "patch.diff")], capture_output=True, text=True)
            if r.returncode:
                res.append("APPLY " + r.stderr[:100])
            else:
                try:
                    res.append("tests lost: %s" % sorted(stable()))
                finally:
                    sh(["git", "-C", REPO, "checkout", "--", "."])
        if check:
            r = sh(["timeout", "900", PY, "run.py", seed["property"]], cwd=os.path.dirname(HERE),
                   env=dict(os.environ, SYMX_REPO=work))
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("check rc=%d %s" % (r.returncode, hit[:1]))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(SEEDS)
    for name in names:
        print(name, build(name, SEEDS[name], "--check" in sys.argv), flush=True)
