"""Mutation study of the checks (not part of any check).

  mutate.py gen OUT.json [N] [SEED]   list mutants of /repo/src/rigeo that pass the stable tests
  mutate.py run IN.json OUT.txt [I/K] run the relevant checks on each of them, stop at the first that reports

A mutant is one small syntactic change.  The scenarios of the design models are computed once per process."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/rigeo"
PY = "/opt/venv/bin/python"
FILES = ["closest.py", "constraint.py", "inertial.py", "moment.py", "polydd.py", "random.py", "rigidbody.py", "spatial.py",
         "test_util.py", "util.py", "shape/base.py", "shape/box.py", "shape/capsule.py", "shape/cylinder.py",
         "shape/ellipsoid.py", "shape/poly.py"]
PROPS = {
    "closest.py": "C15", "constraint.py": "C25 C27 C26", "inertial.py": "C01 C02 C03 C04 C06 C09 C26 C19 C28", "moment.py": "C23 C25 C27",
    "polydd.py": "C16 C17 C08 C12", "random.py": "C18 C19 C20 C21", "rigidbody.py": "C03 C09 C13 C27 C26 C24 C25", "spatial.py": "C06 C19 C07",
    "test_util.py": "C29", "util.py": "C07 C01 C06 C09 C14", "shape/base.py": "C09 C14 C24 C25 C26 C30 C18",
    "shape/box.py": "C08 C09 C10 C11 C12 C05 C13 C14 C18 C21 C22 C24 C25 C30 C26", "shape/capsule.py": "C08 C09 C11 C12 C14 C18 C20 C24 C25 C26 C30 C13 C17",
    "shape/cylinder.py": "C08 C09 C11 C12 C05 C14 C18 C21 C24 C25 C26 C30 C13 C22",
    "shape/ellipsoid.py": "C08 C09 C10 C11 C12 C05 C13 C14 C18 C21 C22 C24 C25 C30 C26",
    "shape/poly.py": "C08 C09 C11 C12 C16 C17 C13 C14 C05 C18 C22 C24 C25 C26 C30 C27"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
NAMES = {"min": "max", "max": "min", "all": "any", "any": "all", "minimum": "maximum", "maximum": "minimum", "vstack": "hstack",
         "zeros": "ones", "ones": "zeros", "floor": "ceil", "ceil": "floor", "append": "insert"}


def mutants(rel):
    text = open(f"{SRC}/{rel}").read()
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = text.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    res = []

    def put(n, new, why):
        a, b = pos(n)
        res.append((rel, a, b, new, f"{rel}:{n.lineno} {why}: {seg(n)[:60]!r} -> {new[:60]!r}"))
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            if type(n.ops[0]) in CMP:
                put(n, f"{l} {CMP[type(n.ops[0])]} {r}", "cmp")
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                put(n, f"{l} {'is' if isinstance(n.ops[0], ast.IsNot) else 'is not'} {r}", "is")
        elif isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            if type(n.op) in sw:
                put(n, f"({l} {sw[type(n.op)]} {r})", "arith")
            if isinstance(n.op, ast.MatMult):
                put(n, f"({r} @ {l})", "swap")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                put(n, f"({l})", "drop right")
            if isinstance(n.op, ast.Pow):
                put(n, f"({l})", "drop power")
        elif isinstance(n, ast.Constant):
            if isinstance(getattr(n, "parent", None), ast.Expr) or isinstance(getattr(n, "parent", None), ast.JoinedStr):
                continue
            if n.value is True or n.value is False:
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "const")
                if n.value > 0:
                    put(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 2 if n.value else 1.0), "const")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            put(n, "(" + f" {op} ".join(f"({seg(v)})" for v in n.values) + ")", "bool op")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.USub, ast.Not)):
                put(n, f"({seg(n.operand)})", "unary")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "True", "cond")
            put(n.test, "False", "cond")
        elif isinstance(n, ast.IfExp):
            put(n, seg(n.body), "cond")
            put(n, seg(n.orelse), "cond")
        elif isinstance(n, ast.Attribute):
            if n.attr == "T":
                put(n, seg(n.value), "transpose")
            if n.attr in NAMES:
                put(n, seg(n.value) + "." + NAMES[n.attr], "name")
            if n.attr in ("copy",):
                pass
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    args = [seg(a) for a in n.args] + [f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}" for q in n.keywords if q is not k]
                    put(n, f"{seg(n.func)}({', '.join(args)})", f"drop keyword {k.arg}")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(n, seg(n.func.value), "drop copy")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "asarray", "abs", "sqrt", "squeeze", "atleast_1d", "atleast_2d", "real", "square") and n.args:
                put(n, f"({seg(n.args[0])})", f"drop {n.func.attr}")
            if len(n.args) == 2 and not n.keywords:
                put(n, f"{seg(n.func)}({seg(n.args[1])}, {seg(n.args[0])})", "swap arguments")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)) or True:
                put(n, "pass", "drop statement")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, seg(n.value), "drop slice")
    return res


def apply(m, d):
    shutil.copytree(SRC, f"{d}/rigeo", ignore=shutil.ignore_patterns("__pycache__", "unused"))
    rel, a, b, new, _ = m
    p = f"{d}/rigeo/{rel}"
    raw = open(p, "rb").read()
    raw = raw[:a] + new.encode() + raw[b:]
    compile(raw, p, "exec")
    open(p, "wb").write(raw)


def stable_ids():
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return ["/repo/" + n.split("::")[0].replace(".", "/") + ".py::" + n.split("::", 1)[1] for n in base]


def survives(m, ids):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        try:
            apply(m, d)
        except (SyntaxError, ValueError):
            return None
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *ids], env=env, cwd="/repo",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return False
        return p.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(out, n, seed):
    ms = [m for f in FILES for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    ids = stable_ids()
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(lambda m: survives(m, ids), ms[:n]))
    live = [m for m, r in zip(ms, rs) if r]
    print(f"{len(ms)} mutants, {min(n, len(ms))} tried, {sum(r is None for r in rs)} do not compile, {len(live)} pass the stable tests")
    json.dump(live, open(out, "w"), indent=0)


def run(inp, out, part):
    sys.path.insert(0, ROOT + "/harness")
    import core
    from gen import PROPS as P
    core.build()
    i, k = map(int, part.split("/"))
    cache = {}

    def sessions(p):
        if p not in cache:
            scns = {}
            spec = P[p]
            for m in (spec["models"]("quick") if callable(spec.get("models")) else spec.get("models", [])):
                scns.setdefault(m[0], []).extend(core.run_model(m[0], m[1])[1])
            cache[p] = spec["gen"](random.Random(f"{p}-1-quick"), "quick", scns)
        return cache[p]
    live = json.load(open(inp))
    for j, m in enumerate(live):
        if j % k != i:
            continue
        d = tempfile.mkdtemp(prefix="mut")
        w = tempfile.mkdtemp(prefix="mutw")
        res = "SURVIVED"
        try:
            apply(m, d)
            core.REPO_SRC = d
            for p in PROPS[m[0]].split():
                spec = P[p]
                try:
                    ss = sessions(p)
                    tr = core.execute(ss, w, event_limit=15, frame=spec.get("frame", False))
                    known = {(x["session"], x["event"], x["clause"]) for x in core.known_findings()}
                    st, fl = core.validate(tr, w, module=spec.get("trace", "Trace"))
                    fl = [f for f in fl for c in f["bad"] if (tr[f["sid"] - 1]["name"], f["l"], c) not in known]
                    if fl:
                        res = f"caught {p} ({len(fl)}): {fl[0]['op']} {fl[0]['bad'][0]}"
                        break
                except core.CheckError as ex:
                    res = f"NOANSWER {p}: " + str(ex)[-300:].replace("\n", " ")
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(w, ignore_errors=True)
        with open(out, "a") as f:
            f.write(f"{j} {res} | {m[4]}\n")


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10**6, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else "0/1")
