"""Scenarios for optimal ellipsoids, containment constraints and closest points: C13 - C15."""
import json
from .common import *
from .inertia import new_par
from .shapes import new_shape, poly_vertices, moved, Shp, unit, scen, det, I3

OSC = (Fr(1), Fr(1), Fr(1), Fr(1, 10), Fr(10))


def flat_points(rng, d, k, sc=Fr(1)):
    """Points spanning a k-dimensional flat of R^d."""
    R = rot_n(rng, d) if d > 1 else [[Fr(1)]]
    t = vec(rng, d, sc)
    n = k + 1 + rng.randint(0, 4)
    while True:
        P = [[num(rng, sc) for _ in range(k)] + [Fr(0)] * (d - k) for _ in range(n)]
        if n > k and any(abs(det([sub(P[i], P[0])[:k] for i in ix])) > sc**k for ix in combos(range(1, n), k)):
            break
    return [add(matvec(R, p), t) for p in P]


def combos(xs, k):
    from itertools import combinations
    return list(combinations(xs, k))


def flags(rng, p=0.4):
    e = {}
    if rng.random() < p:
        e["sphere"] = True
    elif rng.random() < 0.3:
        e["sphere"] = False
    return e


def gen_c13(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 1500 if big else 60, lambda ids: [{"op": "opt.mbe", "src": "shape", "of": x} for x in ids[-1:]]
               + [{"op": "opt.mbe", "src": "shape", "of": x, "sphere": True} for x in ids[-1:]], "c13")
    for i in range(1500 if big else 130):
        s = Ses(f"c13-shape-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        d = rng.choice([2, 3, 3, 4]) if k == "ell" else rng.choice([2, 3, 3]) if k == "poly" else 3
        x, sh = new_shape(s, rng, k, scale=rng.choice(OSC if k != "cap" else OSC[:3]), d=d, degenerate=0.25 if k == "ell" and rng.random() < 0.4 else 0)
        if k == "ell" and not any(sh.he):
            continue
        if rng.random() < 0.5:
            x, sh = moved(s, rng, x, sh, n=1, sc=Fr(1) if k == "cap" else None)
        for _ in range(2):
            s.add("opt.mbe", src="shape", of=x, **flags(rng))
        if k in ("box", "poly"):
            for sp in ({}, {"sphere": True}):
                s.add("opt.mie", of=x, **sp)
        out.append(s.done())
    for i in range(1200 if big else 90):
        s = Ses(f"c13-points-{i}")
        d = rng.choice([1, 2, 2, 3, 3, 3, 4])
        k = rng.choice([d, d, max(1, d - 1), max(1, d - 2)])
        P = flat_points(rng, d, k, rng.choice(OSC + (Fr(3000),)))
        if rng.random() < 0.3:
            P.append(P[0])
        s.add("opt.mbe", src="points", pts=SV(P), **flags(rng))
        s.add("opt.mbe", src="points", pts=SV(P[::-1]), **flags(rng), **({"rcond": "1/1000000000"} if rng.random() < 0.3 else {}))
        out.append(s.done())
    for i in range(700 if big else 50):
        s = Ses(f"c13-ells-{i}")
        d = rng.choice([2, 2, 3, 3])
        sc = rng.choice([Fr(1), Fr(1), Fr(1, 1000), Fr(100), Fr(2000)])
        xs = []
        for _ in range(rng.randint(1, 4)):
            x, sh = new_shape(s, rng, "ell", scale=Fr(1), d=d)
            while max(sh.he) > 12 * min(sh.he):
                s.ev.pop()
                x, sh = new_shape(s, rng, "ell", scale=Fr(1), d=d)
            if sc != 1:      # the whole configuration in other units
                s.ev.pop()
                x = s.add("shape.new", new=True, how="ell", he=SV([h * sc for h in sh.he]), c=SV([v * sc for v in sh.c]), R=SV(sh.R))
            xs.append(x)
        s.add("opt.mbe", src="ells", xs=xs, **flags(rng))
        s.add("opt.mbe", src="ells", xs=xs[::-1] + xs[:1], **flags(rng))
        out.append(s.done())
    for i in range(300 if big else 20):
        s = Ses(f"c13-body-{i}")
        xs = [new_shape(s, rng, k, scale=Fr(1))[0] for k in rng.choices(["box", "ell", "cyl", "cap", "poly"], k=rng.randint(1, 3))]
        p = new_par(s, rng)
        b = s.add("body.new", new=True, shapes=xs, par=p)
        if rng.random() < 0.5:
            b = s.add("body.transform", new=True, of=b, **rigid(rng))
        s.add("opt.mbe", src="body", of=b, **flags(rng))
        out.append(s.done())
    for i in range(900 if big else 60):
        # inscribed ellipsoids of general and of flat polyhedra
        s = Ses(f"c13-mie-{i}")
        d = rng.choice([1, 2, 3, 3])
        if i % 3 == 0 and d > 1:
            x = s.add("shape.new", new=True, how="poly", V=SV(flat_points(rng, d, d - 1, rng.choice(OSC + (Fr(2000),)))))
        else:
            V = poly_vertices(rng, d, rng.choice(OSC + (Fr(2000),)))
            if rng.random() < 0.5:
                R, t = rot_n(rng, d), vec(rng, d)
                V = [add(matvec(R, v), t) for v in V]
            x = s.add("shape.new", new=True, how="poly", V=SV(V))
        s.add("opt.mie", of=x)
        s.add("opt.mie", of=x, sphere=True)
        s.add("opt.mbe", src="shape", of=x, **flags(rng))
        out.append(s.done())
    for i in range(900 if big else 70):
        s = Ses(f"c13-in-{i}")
        d = rng.choice([1, 2, 3, 3])
        x, sh = new_shape(s, rng, "ell", scale=Fr(1), d=d)
        for _ in range(3):
            # another ellipsoid inside, just inside, just outside or unrelated
            he = [pos(rng, rng.choice([Fr(1), Fr(1, 4)])) for _ in range(d)]
            if rng.random() < 0.6:
                f = rng.choice([Fr(9, 10), Fr(98, 100), Fr(102, 100), Fr(11, 10), Fr(1, 2)])
                he = [h * f for h in sh.he]
                c, R = sh.c, sh.R
                if rng.random() < 0.5:
                    # shifted along an axis up to (or beyond) touching
                    j = rng.randrange(d)
                    a = (1 - f) * sh.he[j] * rng.choice([Fr(1, 2), Fr(97, 100), Fr(103, 100), Fr(3, 2)])
                    c = [cc + a * sh.R[r][j] for r, cc in enumerate(sh.c)]
            else:
                c = add(sh.c, vec(rng, d, Fr(1, 4)))
                R = rot_n(rng, d) if d > 1 else [[Fr(1)]]
            y = s.add("shape.new", new=True, how="ell", he=SV(he), c=SV(c), R=SV(R))
            s.add("opt.ellin", of=x, x=y)
            s.add("opt.ellin", of=y, x=x)
        s.add("opt.ellin", of=x, x=x)
        out.append(s.done())
    return out


def direction(rng, sh):
    if rng.random() < 0.4 and sh.k != "poly":
        # along an axis of the shape: the constraint is tight on a face
        j = rng.randrange(sh.d)
        return [rng.choice([1, -1]) * r[j] for r in sh.R]
    v = [Fr(0)] * sh.d
    while not any(v):
        v = ivec(rng, sh.d, 4)
    return v


def gen_c14(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 1500 if big else 50, lambda ids: [{"op": "opt.support", "of": x, "dirs": [d]} for x in ids[-1:] for d in (["1", "2", "-1"], ["0", "0", "1"])], "c14")
    for i in range(3000 if big else 260):
        s = Ses(f"c14-rand-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        d = rng.choice([1, 2, 3, 3, 4]) if k == "ell" else rng.choice([2, 3, 3]) if k == "poly" else 3
        x, sh = new_shape(s, rng, k, scale=rng.choice(OSC), d=d, degenerate=rng.choice([0, 0, 0.35]) if k in ("ell", "box", "cyl", "cap") else 0)
        if rng.random() < 0.4:
            x, sh = moved(s, rng, x, sh, n=1)
        s.add("opt.support", of=x, dirs=SV([direction(rng, sh)]))
        s.add("opt.support", of=x, dirs=SV([direction(rng, sh) for _ in range(rng.randint(1, 4) if rng.random() < 0.75 else rng.randint(9, 20))]), batch=True)
        lo = rng.choice([Fr(1, 2), Fr(2), Fr(3, 4), Fr(5)])
        s.add("opt.support", of=x, dirs=SV([direction(rng, sh)]), lo=S(lo), **({"ty": "int"} if lo.denominator == 1 else {}), **({"param": True} if rng.random() < 0.2 else {}))
        hi = lo * rng.choice([1, 1, 2, 3])
        s.add("opt.support", of=x, dirs=SV([direction(rng, sh)]), lo=S(rng.choice([lo, lo, Fr(0)])) if hi != lo else S(lo), hi=S(hi), var=rng.choice(["scalar", "scalar", "pos", "vec"]))
        s.add("opt.support", of=x, dirs=SV([direction(rng, sh) for _ in range(2)]), batch=True, lo=S(lo), hi=S(lo), **({"var": "scalar"} if rng.random() < 0.5 else {}))
        out.append(s.done())
    return out


def gen_c15(rng, tier, scns):
    big = tier == "thorough"
    out = []
    ks = ["box", "ell", "cyl", "cap", "poly"]
    pairs = [(a, b) for a in ks for b in ks]
    for i, ev in enumerate(list(scns.get("MC_Opt", []))[:1500 if big else 120]):
        s = Ses(f"c15-model-{i}")
        a = s.add("shape.new", new=True, **{k: v for k, v in ev["x"].items() if k != "op"})
        b = s.add("shape.new", new=True, **{k: v for k, v in ev["y"].items() if k != "op"})
        b = s.add("shape.transform", new=True, of=b, **ev["m"])
        s.add("opt.closest", x=a, y=b, **({"wit": ev["wit"]} if ev.get("wit") else {}))
        s.add("opt.closest", x=b, y=a, **({"wit": ev["wit"][::-1]} if ev.get("wit") else {}))
        out.append(s.done())
    for i in range(3000 if big else 225):
        s = Ses(f"c15-rand-{i}")
        ka, kb = pairs[i % len(pairs)]
        sc = rng.choice(OSC)
        dg = rng.choice([0, 0, 0.3])
        a, sa = new_shape(s, rng, ka, scale=sc, degenerate=dg)
        b, sb = new_shape(s, rng, kb, scale=sc, degenerate=dg)
        pa, na = sa.boundary(rng)
        pb, nb = sb.boundary(rng)
        # put a boundary point of b at, inside, or off a boundary point of a
        mode = rng.choice(["apart", "apart", "free", "touch", "overlap"]) if i % 8 else "far"
        if mode != "free":
            t = sub(pa, pb)
            if mode == "far":
                t = add(t, [x * rng.choice([20, 150, 600]) for x in na])
            elif mode == "apart":
                t = add(t, [x * sc * rng.choice([1, 2, Fr(1, 4), 6]) for x in na])
            elif mode == "overlap":
                t = sub(t, [x * sc * Fr(1, 10) for x in na])
            b = s.add("shape.transform", new=True, of=b, t=SV(t))
            sb = sb.moved(None, t)
            pb = add(pb, t)
        wit = SV([pa, pb])
        s.add("opt.closest", x=a, y=b, wit=wit)
        s.add("opt.closest", x=b, y=a, wit=wit[::-1])
        if rng.random() < 0.5:
            e = rigid(rng, sc, "both")
            a2 = s.add("shape.transform", new=True, of=a, **e)
            b2 = s.add("shape.transform", new=True, of=b, **e)
            s.add("opt.closest", x=a2, y=b2)
        s.add("opt.closest", x=a, y=a)
        out.append(s.done())
    # pairs that stand in a special relation: equal sizes, a common frame, concentric, nested, coaxial
    for i in range(1000 if big else 84):
        s = Ses(f"c15-pair-{i}")
        sc = rng.choice(OSC)
        kind = ["sphere", "cube", "box", "ell", "cyl", "cap", "mixed"][i % 7]
        e = {"q": quat(rng, rng.choice(["gen", "quarter", "id"]))} if kind != "sphere" and rng.random() < 0.7 else {}
        R = quat_mat(e["q"]) if e else I3
        ra, rb = pos(rng, sc), pos(rng, sc)
        he = [pos(rng, sc) for _ in range(3)]
        f = rng.choice([Fr(1), Fr(1), Fr(1, 2), Fr(3)])

        def one(k, r, he, c):
            kw = dict(e, c=SV(c))
            if k == "sphere":
                return s.add("shape.new", new=True, how="ell", he=SV([r] * 3), c=SV(c))
            if k in ("cube", "box", "ell"):
                return s.add("shape.new", new=True, how="ell" if k == "ell" else "box", he=SV([r] * 3 if k == "cube" else he), **kw)
            return s.add("shape.new", new=True, how=k, L=S(2 * he[0]), r=S(he[1]), **kw)
        k1, k2 = (rng.choice(["sphere", "cube", "box", "ell", "cyl", "cap"]) for _ in range(2)) if kind == "mixed" else (kind, kind)
        c0 = vec(rng, 3, sc)
        a = one(k1, ra, he, c0)
        far = rng.choice([Fr(0), Fr(1, 3), Fr(3, 4), Fr(2), Fr(5)])
        u = matvec(R, [Fr(int(j == i % 3)) for j in range(3)]) if rng.random() < 0.6 else unit(rng, 3)
        c1 = add(c0, [far * max(ra, rb) * x for x in u])
        b = one(k2, rng.choice([ra, rb]), [f * h for h in he], c1)
        s.add("opt.closest", x=a, y=b, wit=SV([c0, c1]))
        s.add("opt.closest", x=b, y=a, wit=SV([c1, c0]))
        out.append(s.done())
    return out


from .shapes import models as MS  # noqa: E402

def MO(tier):
    lat = '{"-1", "0", "1"}' if tier == "quick" else '{"-1", "0", "1/2", "1"}'
    return ("MC_Opt", f"CONSTANTS Emit = TRUE Lat = {lat}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS EncloseSound InscribeSound EllInSound ClosestSound Emitted\n")


PROPS = {
    "C13": {"models": lambda t: MS(t) + [MO(t)], "gen": gen_c13, "event_limit": 120},
    "C14": {"models": MS, "gen": gen_c14},
    "C15": {"models": lambda t: [MO(t)], "gen": gen_c15},
}
