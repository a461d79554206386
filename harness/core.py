"""Common machinery: building the TLC overrides, running TLC, executing sessions on the library, validating the
recorded traces against the specification, and reporting."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
REPO_SRC = os.environ.get("RIGEO_SRC", "/repo/src")
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not give an answer."""


def build():
    """Compile the Java definitions of the arithmetic operators."""
    os.makedirs(BUILD, exist_ok=True)
    jd = os.path.join(ROOT, "java")
    src = sorted(os.path.join(jd, f) for f in os.listdir(jd) if f.endswith(".java"))
    stamp = os.path.join(BUILD, "java.stamp")
    h = hashlib.sha256(b"".join(open(p, "rb").read() for p in src)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        subprocess.run(["javac", "-cp", TLA, "-d", tmp, *src], check=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
        with open(stamp, "w") as f:
            f.write(h)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc(module, cfg, env=None, workers=NCPU, heap="6g", timeout=800, extra=()):
    """Run TLC on spec/<module>.tla with configuration text cfg.  Returns (ok, output, stats)."""
    build()
    work = tempfile.mkdtemp(prefix="tlc")
    try:
        cfgp = os.path.join(work, "m.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={work}",
               "-cp", f"{TLA}:{COMMUNITY}:{BUILD}", "tlc2.TLC", "-metadir", os.path.join(work, "m"),
               "-workers", str(workers), "-noGenerateSpecTE", "-config", cfgp, *extra, module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        out = p.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        stats = {"states": int(m.group(2)) if m else 0, "transitions": int(m.group(1)) if m else 0}
        ok = p.returncode == 0 and "No error has been found" in out
        return ok, out, stats
    finally:
        shutil.rmtree(work, ignore_errors=True)


def quoted(out, tag):
    """JSON payloads printed by PrintT("TAG " \\o ToJson(..)).  PrintT shows the string quoted and escaped."""
    res = []
    pre = '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(pre):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def run_model(module, cfg, **kw):
    """Model check a design module.  Returns (stats, scenarios); raises if the design violates its invariants."""
    ok, out, stats = tlc(module, cfg, **kw)
    if not ok:
        raise CheckError(f"design model {module} failed:\n" + "\n".join(out.splitlines()[-40:]))
    stats["model"] = module
    return stats, quoted(out, "SCN")


def execute(sessions, work, event_limit=60, frame=False):
    """Run the sessions on the library in parallel worker processes; returns the recorded traces in order."""
    n = max(1, min(NCPU, len(sessions)))
    groups = [sessions[i::n] for i in range(n)]
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONPATH=REPO_SRC, RIGEO_EVENT_LIMIT=str(event_limit))
    env.pop("RIGEO_FRAME", None)
    if frame:
        env["RIGEO_FRAME"] = "1"

    def one(i):
        todo, res, log = groups[i], [], ""
        while todo:
            src, dst = os.path.join(work, f"s{i}.json"), os.path.join(work, f"t{i}.json")
            with open(src, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            open(dst, "w").close()
            p = subprocess.run([PY, os.path.join(ROOT, "harness", "interp.py"), src, dst], env=env, cwd=work,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log = p.stdout[-2000:]
            with open(dst) as f:
                got = [json.loads(x) for x in f if x.endswith("\n")]
            res += got
            if p.returncode == 0:
                break
            if "INTERP READY" not in p.stdout:
                return None, log
            # the process died inside the library: the session being executed ends in its first event
            dead = todo[len(got)]
            res.append({"name": dead["name"], "ev": [{**dead["ev"][0], "o": {"x": {"t": "none", "v": "", "sh": []}},
                                                      "exc": "ProcessDied", "msg": log[-200:]}]})
            todo = todo[len(got) + 1:]
        return res, log
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    bad = [o for t, o in rs if t is None]
    if bad:
        raise CheckError("interpreter failed:\n" + bad[0])
    traces = [None] * len(sessions)
    for i, (t, _) in enumerate(rs):
        for k, tr in enumerate(t):
            traces[i + k * n] = tr
    return traces


TRACE_CFG = "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def validate(traces, work, timeout=800, module="Trace"):
    """Check the traces against the specification.  Returns (stats, failures).

    An observation the specification cannot even interpret (a missing or malformed part of an answer stops the
    evaluation) violates it: that session is reported and set aside, and the others are checked without it."""
    path = os.path.join(work, "trace.ndjson")
    left = list(range(len(traces)))
    found, odd = {}, 0
    while True:
        with open(path, "w") as f:
            for i in left:
                f.write(json.dumps(strip(traces[i])) + "\n")
        ok, out, stats = tlc(module, TRACE_CFG, env={"TRACE": path}, timeout=timeout)
        for x in quoted(out, "FAIL"):
            x["sid"] = left[x["sid"] - 1] + 1
            found.setdefault((x["sid"], x["l"]), x)
        if ok:
            break
        at = uninterpretable(out)
        if at is None or not 1 <= at[0] <= len(left):
            raise CheckError("trace validation failed to run:\n" + "\n".join(l for l in out.splitlines() if not l.startswith("Loading"))[-6000:])
        i = left.pop(at[0] - 1)
        ev = traces[i]["ev"]
        l = min(at[1], len(ev))
        found.setdefault((i + 1, l), {"sid": i + 1, "l": l, "op": ev[l - 1]["op"], "bad": ["answer the specification cannot interpret"]})
        odd += 1
        if odd >= 3 or not left:
            return stats, list(found.values())
    expect = sum(len(traces[i]["ev"]) + 1 for i in left)
    if stats["states"] != expect:
        raise CheckError(f"trace validation consumed {stats['states']} states, expected {expect}")
    return stats, list(found.values())


def uninterpretable(out):
    """Where the evaluation of an observation failed: (session, event), or None if TLC stopped for another reason."""
    if "TLC threw an unexpected exception" not in out or "OutOfMemory" in out or "StackOverflow" in out:
        return None
    sid = re.findall(r"^(?:/\\ )?sid = (\d+)$", out, re.M)
    l = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
    return (int(sid[-1]), int(l[-1])) if sid and l else None


def strip(t):
    """What the specification sees of a trace (no free-text messages)."""
    return {"name": t["name"], "ev": [{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]}


# ---------------------------------------------------------------- known findings
def known_findings():
    """known_findings.txt: lines 'known: property=<id> session=<name> clause=<clause> :: <text>' (and 'fixed:' lines,
    which suppress nothing)."""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) session=(\S+) event=(\d+) clause=(.*?) :: (.*)$", line.strip())
            if m:
                res.append({"property": m[1], "session": m[2], "event": int(m[3]), "clause": m[4], "text": m[5]})
    return res


def summarize(e):
    """A short readable form of an event for evidence samples."""
    d = {k: v for k, v in e.items() if k not in ("o", "msg")}
    s = json.dumps(d)
    return json.loads(s) if len(s) < 1500 else {"op": e["op"], "abridged": s[:1500]}


def run_check(prop, spec, tier, seed):
    """spec: {"models": fn(tier) -> [(module, cfg, use scenarios?)], "gen": fn(rng, tier, scenarios) -> sessions}"""
    import random

    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    build()
    work = tempfile.mkdtemp(prefix="vf_" + prop)
    try:
        models = spec["models"](tier) if callable(spec.get("models")) else spec.get("models", [])
        mstats, scns = [], {}
        with ThreadPoolExecutor(4) as ex:
            futs = [(m, ex.submit(run_model, m[0], m[1], workers=(NCPU if len(models) == 1 else max(2, NCPU // len(models))))) for m in models]
            for m, f in futs:
                st, sc = f.result()
                mstats.append(st)
                scns.setdefault(m[0], []).extend(sc)
        t1 = time.time()
        rng = random.Random(f"{prop}-{seed}-{tier}")
        sessions = spec["gen"](rng, tier, scns)
        names = [s["name"] for s in sessions]
        assert len(set(names)) == len(names), "duplicate session names"
        traces = execute(sessions, work, event_limit=spec.get("event_limit", 60), frame=spec.get("frame", False))
        t2 = time.time()
        vst, fails = {"states": 0, "transitions": 0}, []
        nb = spec.get("batch", 4000)
        for k in range(0, len(traces), nb):
            st, fl = validate(traces[k:k + nb], work, module=spec.get("trace", "Trace"))
            vst["states"] += st["states"]
            vst["transitions"] += st["transitions"]
            for f in fl:
                f["sid"] += k
            fails += fl
        t3 = time.time()
        known = [k for k in known_findings() if k["property"] == prop]
        new, seen = [], set()
        for f in sorted(fails, key=lambda f: (f["sid"], f["l"])):
            ses = traces[f["sid"] - 1]
            for clause in sorted(f["bad"]):
                hit = [k for k in known if k["session"] == ses["name"] and k["event"] == f["l"] and k["clause"] == clause]
                if hit:
                    if (hit[0]["session"], hit[0]["event"]) not in seen:
                        seen.add((hit[0]["session"], hit[0]["event"]))
                        print(f"KNOWN-FINDING: property={prop} {hit[0]['text']}")
                else:
                    new.append((f, clause))
        nev = sum(len(t["ev"]) for t in traces)
        ops = {}
        for t in traces:
            for e in t["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
        step = max(1, len(traces) // 4)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(s["states"] for s in mstats) + vst["states"],
                "transitions": sum(s["transitions"] for s in mstats) + vst["transitions"],
                "traces_validated_against_impl": len(traces),
                "samples": [{"session": t["name"], "events": [summarize(e) for e in t["ev"][:4]]} for t in traces[::step][:4]],
                "design_models": mstats,
                "scenarios_from_models": {k: len(v) for k, v in scns.items()},
                "events_executed_on_implementation": nev,
                "events_by_operation": ops,
                "trace_states": vst["states"],
                "known_findings_seen": len(seen),
                "seconds": {"models": round(t1 - t0, 1), "execution": round(t2 - t1, 1), "validation": round(t3 - t2, 1)},
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            f0 = new[0][0]
            ses = traces[f0["sid"] - 1]
            rp = os.path.join(OUT, f"{prop}-replay.json")
            src = next(s for s in sessions if s["name"] == ses["name"])
            with open(rp, "w") as f:
                json.dump({"property": prop, "session": src, "trace": ses,
                           "violated": [{"event": g["l"], "op": g["op"], "clause": c} for g, c in new if g["sid"] == f0["sid"]]}, f, indent=1)
            for g, c in new[:int(os.environ.get("SHOW", "12"))]:
                t = traces[g["sid"] - 1]
                msg = t["ev"][g["l"] - 1].get("msg", "")
                print(f"  session {t['name']} event {g['l']} ({g['op']}): {c} {msg}")
            print(f"  {len(new)} violated clauses in {len({g['sid'] for g, _ in new})} of {len(traces)} sessions")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        print(f"{prop}: held on {len(traces)} sessions, {nev} events, {vst['states']} trace states, "
              f"{sum(s['states'] for s in mstats)} design states ({ev['wall_s']}s: {ev['coverage']['seconds']})")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    """Re-execute a recorded session and re-validate it."""
    build()
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vf_replay")
    try:
        from gen import PROPS
        spec = PROPS[r["property"]]
        tr = execute([r["session"]], work, frame=spec.get("frame", False))
        st, fails = validate(tr, work, module=spec.get("trace", "Trace"))
        for f in fails:
            for c in f["bad"]:
                print(f"  event {f['l']} ({f['op']}): {c} {tr[0]['ev'][f['l'] - 1].get('msg', '')}")
        if fails:
            print(f"VIOLATION property={r['property']} replay={path}")
            return 1
        print("no clause violated")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
