#!/opt/venv/bin/python
"""Mechanical mutants of /repo's HEAD against the checks: python tools/mutate.py FILE.py [--func NAME] [--jobs N] [--log F] [--limit N]

One mutant = one small source edit (operator, constant, dropped statement/keyword, swapped arguments, negated condition).  Each
runs, in a scratch copy under /tmp, the checks whose evidence says they execute the edited function, until one
reports a violation.  Survivors are printed; they are either equivalent edits or gaps.  Development aid only: no check uses it.
"""
import argparse, ast, glob, json, multiprocessing, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TIMES = {}


def offsets(text):
    out, n = [0], 0
    for line in text.split("\n"):
        n += len(line.encode()) + 1
        out.append(n)
    return out


def mutants(text):
    raw, off = text.encode(), offsets(text)
    tree = ast.parse(text)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    src = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(fn, node, new, why):
        s, e = pos(node)
        if raw[s:e].decode() != new:
            out.append((fn, node.lineno, s, e, new, why))

    def walk(node, fn):
        for child in ast.iter_child_nodes(node):
            name = fn
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                name = (fn + "." if fn else "") + child.name
            visit(child, name)
            walk(child, name)

    def visit(n, fn):
        leaf = fn.split(".")[-1]
        if leaf.startswith("fig") or leaf.startswith("plot"):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = src(n.left), src(n.comparators[0])
            swap = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
                    ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
            for o in swap.get(type(n.ops[0]), []):
                add(fn, n, "%s %s %s" % (a, o, b), "cmp")
        elif isinstance(n, ast.BinOp):
            a, b = src(n.left), src(n.right)
            if isinstance(n.left, ast.BinOp):
                a = "(%s)" % a
            if isinstance(n.right, ast.BinOp):
                b = "(%s)" % b
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", 0), str) or '"' in src(n) and "[" not in src(n):
                return
            swap = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.Mod: ["*"], ast.FloorDiv: ["/"]}
            for o in swap.get(type(n.op), []):
                add(fn, n, "(%s %s %s)" % (a, o, b), "op")
            if isinstance(n.op, (ast.Mult, ast.Add)):
                add(fn, n, "(%s)" % a, "dropright")
                add(fn, n, "(%s)" % b, "dropleft")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            for w in ([v + 1] if type(v) is int else [v * 2, v * 1.01]) + ([v - 1] if type(v) is int and v > 0 else []):
                add(fn, n, repr(w), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(fn, n, repr(not n.value), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(fn, n, "(%s)" % src(n.operand), "unary")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(fn, n.test, "(not (%s))" % src(n.test), "neg")
            if isinstance(n, ast.If):
                add(fn, n.test, "True", "true")
                add(fn, n.test, "False", "false")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(fn, n, "(" + o.join(src(v) for v in n.values) + ")", "bool")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Return)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if not src(n).startswith("print") and not (isinstance(n, ast.Return) and n.value is None):
                add(fn, n, "pass", "del")
            if isinstance(n, ast.AugAssign):
                add(fn, n, "%s = %s" % (src(n.target), src(n.value)), "aug")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            add(fn, n, src(n.value), "noT")
        elif isinstance(n, ast.For):
            add(fn, n.iter, "list(%s)[1:]" % src(n.iter), "skipfirst")
            add(fn, n.iter, "list(%s)[:-1]" % src(n.iter), "skiplast")
            add(fn, n.iter, "list(%s)[::-1]" % src(n.iter), "reverse")
        elif isinstance(n, (ast.Tuple,)) and isinstance(n.ctx, ast.Load) and len(n.elts) in (2, 3):
            es = [src(e) for e in n.elts]
            es[0], es[1] = es[1], es[0]
            add(fn, n, "(" + ", ".join(es) + ")", "swap")
        if isinstance(n, ast.Call) and not src(n).startswith("print"):
            args = [src(a) for a in n.args] + [(k.arg + "=" if k.arg else "**") + src(k.value) for k in n.keywords]
            f = src(n.func)
            for i in range(len(n.args), len(args)):
                add(fn, n, "%s(%s)" % (f, ", ".join(args[:i] + args[i + 1:])), "dropkw")
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    sw = list(args)
                    sw[i], sw[i + 1] = sw[i + 1], sw[i]
                    add(fn, n, "%s(%s)" % (f, ", ".join(sw)), "swapargs")
            if f in ("deepcopy", "copy", "np.array", "np.sort", "abs", "np.abs", "np.sqrt", "np.copy", "sorted", "dict", "list") and len(args) >= 1:
                add(fn, n, "(%s)" % args[0], "uncall")
            if f.endswith(".copy") and not args:
                add(fn, n, f[:-5], "nocopy")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in (("kx", "ky"), ("ky", "kz"), ("vx", "vy"), ("vy", "vz"), ("x", "y"), ("y", "z"), ("a", "b"), ("b", "c"), ("i", "j")):
                if n.id == x:
                    add(fn, n, y, "name")
                elif n.id == y:
                    add(fn, n, x, "name")
        if isinstance(n, ast.Slice):
            add(fn, n, ":", "slice")
    walk(tree, "")
    seen, res = set(), []
    for m in out:
        key = m[2:5]
        if key not in seen:
            seen.add(key)
            res.append(m)
    return res


def checks_for(mod, fn):
    got, wall = [], {}
    for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
        d = json.load(open(f))
        wall[d["property"]] = d["wall_s"]
        fs = d["coverage"]["functions_encoded"]
        if any(x == mod + ":" + fn or x.startswith(mod + ":" + fn + ".") for x in fs) or (not fn and any(x.startswith(mod + ":") for x in fs)):
            got.append(d["property"])
    return sorted(got, key=lambda c: wall[c])


def work(job):
    mod, m, text, crlf, checks = job
    fn, line, s, e, new, why = m
    raw = text.encode()
    mutated = (raw[:s] + new.encode() + raw[e:]).decode()
    try:
        compile(mutated, "m", "exec")
    except SyntaxError:
        return job, "SYNTAX", ""
    repo = "/tmp/mt/w%d" % os.getpid()
    if not os.path.isdir(repo):
        subprocess.run(["git", "clone", "-q", "/repo", repo])
    path = os.path.join(repo, "cuprates_transport", mod + ".py")
    open(path, "w", newline="").write(mutated.replace("\n", "\r\n") if crlf else mutated)
    try:
        if not checks:
            return job, "UNCOVERED", ""
        bad = []
        for c in checks:
            try:
                r = subprocess.run(["timeout", "-k", "5", "150", PY, os.path.join(HERE, "run.py"), c], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, SYMX_JOBS="2", SYMX_REPO=repo, SYMX_EVIDENCE="/tmp/mt/ev%d" % os.getpid()))
            except Exception as ex:
                bad.append("%s:%s" % (c, ex))
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return job, "KILLED", c
            if r.returncode != 0:
                bad.append("%s:rc%d" % (c, r.returncode))
        return job, "SURVIVED", " ".join(bad)
    finally:
        open(path, "w", newline="").write(text.replace("\n", "\r\n") if crlf else text)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--func", default="")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    mod = a.file[:-3]
    data = subprocess.run(["git", "-C", "/repo", "show", "HEAD:cuprates_transport/" + a.file], capture_output=True).stdout.decode()
    crlf, text = "\r\n" in data, data.replace("\r\n", "\n")
    ms = [m for m in mutants(text) if m[0] and re.search(a.func, m[0])]
    if a.limit and len(ms) > a.limit:
        random.Random(a.seed).shuffle(ms)
        ms = ms[:a.limit]
    ms.sort(key=lambda m: m[1])
    cache = {}
    jobs = [(mod, m, text, crlf, cache.setdefault(m[0], checks_for(mod, m[0]))) for m in ms]
    print(len(jobs), "mutants", {k: len(v) for k, v in cache.items()}, flush=True)
    if a.list:
        return
    tally = {}
    with multiprocessing.Pool(a.jobs) as pool:
        for job, res, info in pool.imap_unordered(work, jobs):
            tally[res] = tally.get(res, 0) + 1
            if res != "KILLED" and res != "SYNTAX":
                fn, line, s, e, new, why = job[1]
                old = text.encode()[s:e].decode()
                print("%s %s:%d [%s] %s: %r -> %r  %s" % (res, fn, line, why, info, old[:90], new[:110], " ".join(job[4]) if not info else ""), flush=True)
    print(tally)


if __name__ == "__main__":
    main()
