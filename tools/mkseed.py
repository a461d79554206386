"""Create and confirm a planted bug: mk(id, property, edits=[(file, old, new)], demo, needs, breaks).
Works in a scratch copy of /repo under /tmp; keeps it in seeded/<id>/ only when the demonstration passes on the
unchanged tree, fails with the change, and the stable tests still pass."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    sh(f"rm -rf {WT}; cp -a /repo {WT}")
    sh(f"cd {WT} && git checkout -q -- . && git clean -qfd")


def demo_rc(d):
    env = dict(os.environ, PYTHONPATH=f"{WT}/src", PYTHONDONTWRITEBYTECODE="1")
    p = sh(f"bash {d}/demo.sh", cwd=WT, env=env, timeout=300)
    return p.returncode, p.stdout[-600:]


def stable():
    """Number of stable tests that pass, and the names of those that do not."""
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passed") or base
    p = sh(f"cd {WT} && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={WT}/src {PY} -m pytest -q -rA -p no:cacheprovider tests 2>&1", timeout=150)
    ok = {l.split(" ", 1)[1].split(" - ")[0] for l in p.stdout.splitlines() if l.startswith("PASSED")}
    ok = {o.replace("/", ".").replace(".py::", "::") for o in ok}
    bad = [n for n in names if n not in ok]
    return len(ok), bad


def mk(id, prop, edits, demo, needs, breaks, check=True, keep=True):
    d = os.path.join(ROOT, "seeded", id)
    fresh()
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(demo)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    rc, out = demo_rc(d)
    ok = True
    if rc != 0:
        print(id, "DEMO FAILS ON CLEAN", out); ok = False
    for f, old, new in edits:
        p = os.path.join(WT, "src/rigeo", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT COUNT", f, s.count(old)); ok = False
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"cd {WT} && git diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    rc, out = demo_rc(d)
    if rc == 0:
        print(id, "DEMO PASSES ON BUG"); ok = False
    try:
        n, bad = stable()
    except subprocess.TimeoutExpired:
        n, bad = 0, ["timeout"]
    if bad:
        print(id, "STABLE TESTS", n, bad[:3]); ok = False
    if not ok:
        if keep != "always":
            shutil.rmtree(d)
        return False
    res = "kept"
    if check:
        p = sh(f"cd {ROOT} && RIGEO_SRC={WT}/src VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop}")
        res = ("CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode) + " | " + " / ".join(p.stdout.strip().splitlines()[:2])[:300]
    print(id, prop, res, flush=True)
    return True


def recheck(ids=None):
    for id in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        if ids and id not in ids:
            continue
        d = os.path.join(ROOT, "seeded", id)
        prop = json.load(open(d + "/meta.json"))["property"]
        fresh()
        a = sh(f"cd {WT} && git apply {d}/patch.diff")
        if a.returncode:
            print(id, "DOES NOT APPLY"); continue
        p = sh(f"cd {ROOT} && RIGEO_SRC={WT}/src VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop}")
        print(id, prop, "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode, "|", " / ".join(p.stdout.strip().splitlines()[:1])[:200], flush=True)


if __name__ == "__main__":
    recheck(set(sys.argv[1:]))
