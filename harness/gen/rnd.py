"""Scenarios for random sampling: C18 - C22."""
import json
from .common import *
from .shapes import new_shape, poly_vertices, moved, Shp, I3, scen


def arrshape(rng, kinds=("one", "one", "n", "n", "tup", "tup1", "tup2", "zero", "none")):
    k = rng.choice(kinds)
    if k == "none":
        return {"shape": [1], "scalar": True, "noshape": True}
    if k == "one":
        return {"shape": [1], "scalar": True}
    if k == "n":
        return {"shape": [rng.randint(2, 9)], "scalar": True, "npint": rng.random() < 0.2}
    if k == "tup1":
        return {"shape": [rng.choice([1, 1, 4])]}
    if k == "zero":
        return {"shape": [0], "scalar": True}
    if k == "big":
        return rng.choice([{"shape": [70], "scalar": True}, {"shape": [150], "scalar": True}, {"shape": [1100]}, {"shape": [40, 30]}])
    if k == "tup2":
        return {"shape": [rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)]}
    return {"shape": [rng.randint(1, 4), rng.randint(1, 4)]}


def seed(rng):
    return rng.choice([0, 1, rng.randint(0, 10**6), rng.randint(0, 2**31)])


SIZES = (Fr(1), Fr(1), Fr(1, 1000), Fr(30), Fr(1000), Fr(1, 20))


def gen_c18(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 2000 if big else 60, lambda ids: [{"op": "rnd.sample", "f": "points", "of": x, "shape": [5], "scalar": True, "seed": 3} for x in ids[-2:]]
               + [{"op": "rnd.sample", "f": "points", "of": x, "shape": [1], "scalar": True, "seed": 4} for x in ids[-2:]], "c18")
    for i in range(4000 if big else 330):
        s = Ses(f"c18-shape-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        d = rng.choice([1, 2, 3, 3, 4, 5]) if k == "ell" else rng.choice([1, 2, 3, 3, 4]) if k == "poly" else 3
        if k == "poly" and (d == 4 or rng.random() < 0.15):
            # any cloud of points, also fewer than a simplex needs
            n = rng.randint(1, d + 3)
            V = [[Fr(rng.randint(-3, 3)) for _ in range(d)] for _ in range(n)]
            x = s.add("shape.new", new=True, how="poly", V=SV(V), prune=True)
            sh = Shp("poly", V=V, d=d)
        else:
            x, sh = new_shape(s, rng, k, scale=rng.choice(SIZES) if k != "cap" else rng.choice(SIZES[:2] + SIZES[3:4]), degenerate=rng.choice([0, 0, 0.35]), d=d)
        if rng.random() < 0.4:
            x, sh = moved(s, rng, x, sh, n=1)
        fs = ["points", "points"]
        if k == "box":
            nz = sum(h != 0 for h in sh.he)
            fs += (["surface", "surface"] if nz >= 2 else []) + (["edges", "edges"] if nz >= 1 else [])
        if k == "cap" and (sh.r == 0):
            continue            # nothing of it can be hit by rejection
        if k == "ell":
            nz = [h for h in sh.he if h]
            if len(nz) < d or max(nz) < 300 * min(nz):
                fs += ["surface", "surface"]
        for f in fs:
            s.add("rnd.sample", f=f, of=x, seed=seed(rng), **arrshape(rng))
        out.append(s.done())
    for i in range(40 if big else 8):
        # many samples at once
        s = Ses(f"c18-many-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        x, sh = new_shape(s, rng, k)
        for f in ["points"] + (["surface", "edges"] if k == "box" else ["surface"] if k == "ell" else []):
            s.add("rnd.sample", f=f, of=x, seed=seed(rng), **rng.choice([{"shape": [600], "scalar": True}, {"shape": [30, 45]}, {"shape": [2100], "scalar": True}]))
        s.add("rnd.sample", f="hypersphere", dim=2, seed=seed(rng), shape=[1300], scalar=True)
        s.add("rnd.sample", f="ball", dim=3, seed=seed(rng), shape=[1300], scalar=True)
        s.add("rnd.weights", seed=seed(rng), shape=[300, 5])
        out.append(s.done())
    for i in range(1500 if big else 110):
        s = Ses(f"c18-prim-{i}")
        for _ in range(4):
            f = rng.choice(["hypersphere", "ball"])
            s.add("rnd.sample", f=f, dim=rng.choice([0, 1, 2, 3, 4, 7]) if f == "hypersphere" else rng.choice([1, 1, 2, 3, 4, 7]), seed=seed(rng), **arrshape(rng))
        e = arrshape(rng, ("n", "tup", "tup1", "tup2", "one"))
        s.add("rnd.weights", seed=seed(rng), **e)
        s.add("rnd.psd", n=rng.randint(1, 6), seed=seed(rng))
        out.append(s.done())
    return out


# ------------------------------------------------------------------ sources of randomness
CALLSHAPES = ("one", "n", "tup", "tup1", "tup2", "tup2", "none", "big")


def calls(s, rng):
    """Objects to sample from, and the calls on them: (name, args)."""
    res = []
    for k in rng.sample(["box", "ell", "cyl", "cap", "poly"], 2):
        x, sh = new_shape(s, rng, k, scale=Fr(1))
        fs = ["points"]
        if k == "box":
            fs += ["surface", "edges"]
        if k == "ell":
            fs += ["surface"]
        for f in fs:
            e = {"f": f, "of": x, **arrshape(rng, CALLSHAPES)}
            res.append(e)
        if k == "box":
            y = s.add("shape.new", new=True, how="box", he=["3/2", "2", "5/4"])
            b = s.add("shape.new", new=True, how="box", he=["3", "3", "3"])
            res.append({"f": "reject", "of": y, "box": b, **arrshape(rng, ("n", "tup"))})
    res.append({"f": "hypersphere", "dim": rng.choice([1, 2, 4]), **arrshape(rng, CALLSHAPES)})
    res.append({"f": "ball", "dim": rng.choice([1, 2, 3, 5]), **arrshape(rng, CALLSHAPES)})
    res.append({"f": "weights", "shape": rng.choice([[rng.randint(2, 5), 3], [2, 3, 4]])})
    res.append({"f": "psd", "n": rng.randint(2, 4)})
    res.append({"f": "params"})
    m = s.add("sv.new", new=True, ang=SV(ivec(rng)), lin=SV(ivec(rng)))
    c = s.add("sv.new", new=True, ang=["1", "2", "1/2"], lin=["1", "1/4", "3"])
    res.append({"f": "normal", "mean": m, "cov": c})
    return res


ALL_CALLS = ["points:box", "surface:box", "edges:box", "points:ell", "surface:ell", "points:cyl", "points:cap", "points:poly", "hypersphere", "ball", "weights",
             "psd", "params", "normal", "reject"]


def one_call(s, rng, name):
    f, _, k = name.partition(":")
    if k:
        x, _sh = new_shape(s, rng, k, scale=Fr(1))
        return {"f": f, "of": x, **arrshape(rng, CALLSHAPES)}
    if f == "reject":
        # a target which takes a fair share of the bounding box, so that the default number of rounds suffices
        y = s.add("shape.new", new=True, **rng.choice([{"how": "ell", "he": ["3/2", "2", "5/4"]}, {"how": "box", "he": ["2", "1", "2"], "c": ["1/2", "0", "0"]}]))
        return {"f": f, "of": y, "box": s.add("shape.new", new=True, how="box", he=["3", "3", "3"]), **arrshape(rng, ("n", "tup"))}
    if f in ("hypersphere", "ball"):
        return {"f": f, "dim": rng.choice([1, 2, 3, 5]), **arrshape(rng, CALLSHAPES)} if f == "hypersphere" else \
               {"f": f, "dim": rng.choice([1, 2, 3, 5]), **arrshape(rng, CALLSHAPES)}
    if f == "weights":
        return {"f": f, "shape": rng.choice([[4], [3, 3], [2, 3, 2]])}
    if f == "normal":
        m = s.add("sv.new", new=True, ang=SV(ivec(rng)), lin=SV(ivec(rng)))
        c = s.add("sv.new", new=True, ang=["1", "2", "1/2"], lin=["1", "1/4", "3"])
        return {"f": f, "mean": m, "cov": c}
    return {"f": f, **({"n": rng.randint(2, 4)} if f == "psd" else {})}


def do_call(s, rng, args, src, **kw):
    if src == "none" and rng.random() < 0.5:
        kw["omit"] = True
    s.add("rnd.call", args=args, call=json.dumps(args, sort_keys=True), src=src, **kw)


def gen_c19(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = list(scns.get("MC_Rng", []))
    rng.shuffle(al)
    for i, ev in enumerate(al[:6000 if big else 300]):
        s = Ses(f"c19-model-{i}")
        a = one_call(s, rng, ALL_CALLS[i % len(ALL_CALLS)])
        b = one_call(s, rng, rng.choice(ALL_CALLS))
        f = {"a": a, "b": b}
        gens = {}
        for e in ev:
            if e["op"] == "rng.new":
                gens[e["id"]] = s.add("rng.new", new=True, seed=e["seed"])
            elif e["op"] == "rng.global":
                s.add("rng.global", seed=e["seed"])
            else:
                do_call(s, rng, f[e["call"]], e["src"], **({"seed": e["seed"]} if "seed" in e else {}), **({"gen": gens[e["gen"]]} if "gen" in e else {}))
        out.append(s.done())
    for i in range(600 if big else 45):
        # every function: longer random histories
        s = Ses(f"c19-rand-{i}")
        cs = [one_call(s, rng, ALL_CALLS[i % len(ALL_CALLS)])] + [one_call(s, rng, x) for x in rng.sample(ALL_CALLS, 2)]
        sd = [seed(rng) for _ in range(2)]
        sd[1] = sd[0] + 1 if sd[0] == sd[1] else sd[1]
        gens = [s.add("rng.new", new=True, seed=sd[k]) for k in (0, 0, 1)]
        for c in cs:
            for _ in range(2):
                for sx in sd:
                    do_call(s, rng, c, "seed", seed=sx)
                if rng.random() < 0.5:
                    s.add("rng.global", **({"seed": 5} if rng.random() < 0.7 else {}))
                for g in gens[:2]:
                    do_call(s, rng, c, "gen", gen=g)
                s.add("rng.global", seed=5)
                do_call(s, rng, c, "none")
            do_call(s, rng, c, "gen", gen=gens[2])
        out.append(s.done())
    return out


# ------------------------------------------------------------------ rejection sampling
def split_shape(rng, n):
    """An array shape with n elements."""
    if n == 1:
        return rng.choice([{"shape": [1], "scalar": True}, {"shape": [1]}, {"shape": [1, 1]}])
    if n == 0:
        return {"shape": [0], "scalar": True}
    div = [d for d in range(1, n + 1) if n % d == 0]
    a = rng.choice(div)
    b = rng.choice([d for d in range(1, a + 1) if a % d == 0])
    return rng.choice([{"shape": [n], "scalar": True}, {"shape": [n]}, {"shape": [a, n // a]}, {"shape": [a, n // a], "aslist": True},
                       {"shape": [b, a // b, n // a]}, {"shape": [b, a // b, n // a]}])


def gen_c20(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = list(scns.get("MC_Reject", []))
    rng.shuffle(al)
    for i, x in enumerate(al[:8000 if big else 1200]):
        s = Ses(f"c20-model-{i}")
        acc = x["acc"] or [0]
        # masks of up to two target shapes; beyond the script nothing is accepted
        acc = acc + [0] * 3
        two = any(a > 1 for a in acc) or rng.random() < 0.3
        mem = [[a & 1 for a in acc], [a >> 1 for a in acc]] if two else [acc]
        s.add("rej.script", mem=mem, max=x["max"], **split_shape(rng, x["n"]), **({"seed": 1} if rng.random() < 0.5 else {}))
        out.append(s.done())
    for i in range(3000 if big else 300):
        s = Ses(f"c20-rand-{i}")
        n = rng.choice([1, 2, 3, 5, 8, 12, 30])
        p = rng.choice([0.05, 0.3, 0.5, 0.9, 1.0])
        L = rng.randint(3, 60)
        k = rng.choice([1, 1, 2, 3])
        mem = [[int(rng.random() < p) for _ in range(L)] for _ in range(k)]
        s.add("rej.script", mem=mem, max=rng.choice([0, 1, 2, 3, 10, 100]), **split_shape(rng, n))
        out.append(s.done())
    for i in range(800 if big else 100):
        # real shapes, recorded candidates
        s = Ses(f"c20-real-{i}")
        ids = []
        for _ in range(rng.choice([1, 1, 2])):
            x, sh = new_shape(s, rng, scale=Fr(1), posed=rng.random() < 0.7)
            ids.append(x)
        h = S(Fr(rng.randint(4, 12)))
        b = s.add("shape.new", new=True, how="box", he=[h, h, h], **({"q": quat(rng)} if rng.random() < 0.5 else {}))
        n = rng.choice([1, 1, 2, 4, 6])
        s.add("rej.record", shapes=ids, box=b, max=rng.choice([1, 3, 20, 400]), seed=seed(rng), **split_shape(rng, n))
        out.append(s.done())
    return out


# ------------------------------------------------------------------ distributions
def pose(sh):
    he = sh.he if sh.k in ("box", "ell") else [sh.r, sh.r, sh.L / 2 + (sh.r if sh.k == "cap" else 0)]
    return {"c": SV(sh.c), "R": SV(sh.R), "he": SV(he)}


def gen_c21(rng, tier, scns):
    big = tier == "thorough"
    out = []
    M = 6 if big else 1
    modes = ["big", "shape", "half", "batch", "single"]

    def mode(heavy=False):
        m = rng.choice(modes)
        e = {"mode": m, "seed": rng.randint(0, 10**6)}
        if m == "batch":
            b = rng.choice([2, 3, 5])
            e.update(b=b, j=rng.randrange(b), N=4000)
        elif m == "single":
            e["N"] = 4000
        else:
            e["N"] = 40000
        if heavy:
            e["N"] //= 4
        return e

    for i in range(34 * M):
        s = Ses(f"c21-box-{i}")
        asp = [Fr(rng.choice([1, 1, 2, 5, 12]), rng.choice([1, 4])) for _ in range(3)]
        x = s.add("shape.new", new=True, how="box", he=SV(asp), c=SV(c := vec(rng)), q=(q := quat(rng)))
        sh = Shp("box", c, quat_mat(q), he=asp)
        if rng.random() < 0.3:
            x, sh = moved(s, rng, x, sh, n=1)
        for f, k in (("points", ""), ("surface", "faces"), ("edges", "edges")):
            s.add("rnd.stats", f=f, of=x, kind=k, pose=pose(sh), **mode())
        out.append(s.done())
    for i in range(30 * M):
        s = Ses(f"c21-ell-{i}")
        d = rng.choice([1, 2, 2, 3, 3, 3, 4])
        asp = [Fr(rng.choice([1, 2, 5, 9]), rng.choice([1, 3])) for _ in range(d)]
        if d > 1 and rng.random() < 0.2:
            asp[rng.randrange(d)] = Fr(0)
        e, R = {}, None
        if d == 3:
            e["q"] = quat(rng)
            R = quat_mat(e["q"])
        elif d > 1:
            R = rot_n(rng, d)
            e["R"] = SV(R)
        x = s.add("shape.new", new=True, how="ell", he=SV(asp), c=SV(c := vec(rng, d)), **e)
        sh = Shp("ell", c, R, he=asp, d=d)
        s.add("rnd.stats", f="points", of=x, kind="", pose=pose(sh), **mode())
        if d > 1 and all(asp):
            s.add("rnd.stats", f="surface", of=x, kind="ellsurf", pose=pose(sh), **mode())
        out.append(s.done())
    for i in range(24 * M):
        s = Ses(f"c21-cyl-{i}")
        k = ["cyl", "cap"][i % 2]
        L, r = Fr(rng.choice([1, 2, 5, 12]), rng.choice([1, 4])), Fr(rng.choice([1, 2, 5]), rng.choice([1, 4]))
        x = s.add("shape.new", new=True, how=k, L=S(L), r=S(r), c=SV(c := vec(rng)), q=(q := quat(rng)))
        sh = Shp(k, c, quat_mat(q), L=L, r=r)
        s.add("rnd.stats", f="points", of=x, kind=k, pose=pose(sh), L=S(L), **mode(k == "cap"))
        out.append(s.done())
    for i in range(26 * M):
        s = Ses(f"c21-prim-{i}")
        s.add("rnd.stats", f="hypersphere", dim=rng.choice([1, 2, 2, 3, 4]), kind="", **mode())
        s.add("rnd.stats", f="ball", dim=rng.choice([1, 2, 3, 4, 5]), kind="", **mode())
        out.append(s.done())
    return out


# ------------------------------------------------------------------ grids
def gen_c22(rng, tier, scns):
    big = tier == "thorough"
    out = []
    for i in range(2500 if big else 220):
        s = Ses(f"c22-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        x, sh = new_shape(s, rng, k, scale=rng.choice([Fr(1), Fr(1), Fr(1, 10), Fr(50)]), posed=rng.random() < 0.9)
        if rng.random() < 0.3:
            x, sh = moved(s, rng, x, sh, n=1)
        for _ in range(2):
            if k in ("box", "poly") and rng.random() < 0.5:
                s.add("shape.grid", of=x, ns=[rng.randint(2, 5) for _ in range(3)], ty=rng.choice(["list", "tuple", "int"]))
            else:
                s.add("shape.grid", of=x, n=rng.randint(2, 6))
        out.append(s.done())
    for i in range(400 if big else 40):
        # axis-aligned shapes: lattice points exactly on faces, edges and rims
        s = Ses(f"c22-axis-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        e = {"c": SV(ivec(rng, 3, 3)), **({"q": quat(rng, "quarter")} if rng.random() < 0.5 else {})}
        if k == "poly":
            x = s.add("shape.new", new=True, how="poly", V=SV([[Fr(a) for a in v] for v in ([0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4])]))
        elif k in ("box", "ell"):
            x = s.add("shape.new", new=True, how=k, he=SV([Fr(rng.randint(1, 4)) for _ in range(3)]), **e)
        else:
            x = s.add("shape.new", new=True, how=k, L=S(rng.randint(1, 4)), r=S(rng.randint(1, 4)), **e)
        s.add("shape.grid", of=x, n=rng.choice([2, 3, 5, 9]))
        out.append(s.done())
    return out


MCS = lambda big: [("MC_Rnd", f"CONSTANTS Big = {'TRUE' if big else 'FALSE'}\nINIT Init\nNEXT Next\nINVARIANTS Partition Total CapExact GridBijection Emitted\nCHECK_DEADLOCK FALSE\n")]
RJ = lambda n, m, ms: f"CONSTANTS N = {n} M = {m} Masks = {ms} Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS Correct ExactEnd Emitted\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
RG = lambda n: f"CONSTANTS Len0 = {n} Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Ok Flags Emitted\nCHECK_DEADLOCK FALSE\n"
from .shapes import models as models_shapes  # noqa: E402

PROPS = {
    "C18": {"models": models_shapes, "gen": gen_c18},
    "C19": {"models": lambda t: [("MC_Rng", RG(4 if t == "quick" else 5))], "gen": gen_c19},
    "C20": {"models": lambda t: [("MC_Reject", RJ(2, 3, "{0,1,2,3}")), ("MC_Reject", RJ(4, 3, "{0,1}") if t == "quick" else RJ(5, 4, "{0,1}"))], "gen": gen_c20},
    "C21": {"models": lambda t: MCS(t != "quick"), "gen": gen_c21, "event_limit": 240},
    "C22": {"models": lambda t: MCS(t != "quick"), "gen": gen_c22},
}
