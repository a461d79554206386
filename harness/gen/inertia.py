"""Scenarios for inertial parameters: C01 - C04."""
from .common import *

ROUTES = ["vec", "pim", "hH", "cH", "hI", "cI", "hHc", "cIc", "hIc", "cHc", "I2H", "pimvec", "pimexpr"]


def point_masses(rng, n=None, scale=1, mscale=1, zero_mass=0.15):
    n = n or rng.randint(4, 7)
    off = vec(rng, 3, scale)
    return [[(Fr(0) if rng.random() < zero_mass else pos(rng, mscale)), add(off, vec(rng, 3, scale))] for _ in range(n)]


def moments(pm):
    m = sum(a for a, _ in pm)
    h = [sum(a * p[i] for a, p in pm) for i in range(3)]
    H = [[sum(a * p[i] * p[j] for a, p in pm) for j in range(3)] for i in range(3)]
    return m, h, H


def about_com(m, h, H):
    return [[H[i][j] - h[i] * h[j] / m for j in range(3)] for i in range(3)]


def inertia(H):
    t = sum(H[i][i] for i in range(3))
    return [[(t if i == j else 0) - H[i][j] for j in range(3)] for i in range(3)]


def new_par(s, rng, scale=1, mscale=1, how=None, pm=None, ty=None):
    """Add an event that constructs inertial parameters by some route; the route determines the arguments."""
    pm = pm or point_masses(rng, scale=scale, mscale=mscale)
    if not any(m for m, _ in pm):
        pm[0][0] = Fr(1)
    m, h, H = moments(pm)
    how = how or rng.choice(["pm", "vec", "pim", "new", "new", "new", "new"])
    kw = {"ty": ty} if ty else {}
    if how == "pm":
        return s.add("par.pm", new=True, pm=[[S(a), SV(p)] for a, p in pm], **kw)
    if how == "vec":
        I = inertia(H)
        return s.add("par.vec", new=True, v=SV([m] + h + [I[0][0], I[0][1], I[0][2], I[1][1], I[1][2], I[2][2]]), **kw)
    if how == "pim":
        J = [list(H[i]) + [h[i]] for i in range(3)] + [h + [m]]
        return s.add("par.pim", new=True, J=SV(J), **kw)
    a = {"m": S(m), "tfc": rng.random() < 0.5}
    first = rng.choice(["h", "c", "h", "c", None])
    if first == "h":
        a["h"] = SV(h)
    elif first == "c":
        a["c"] = SV([x / m for x in h])
    second = rng.choice(["H", "I", "H", "I", None])
    Hx = about_com(m, h, H) if a["tfc"] else H
    if first is None:
        # a distribution centred at the origin
        Hx = about_com(m, h, H)
    if second == "H":
        a["H"] = SV(Hx)
    elif second == "I":
        a["I"] = SV(inertia(Hx))
    if rng.random() < 0.3:
        a["tfc_explicit"] = True
    return s.add("par.new", new=True, **a, **kw)


def int_pm(rng):
    return [[Fr(rng.randint(1, 5)), [Fr(rng.randint(-4, 4)) for _ in range(3)]] for _ in range(rng.randint(1, 5))]


def from_scenarios(scns, rng, tier, prefix, tail, limit, names=("MC_Inertia",)):
    """Replay behaviours of the design model: its events, then observations of every object."""
    res = []
    allsc = [h for n in names for h in scns.get(n, [])]
    rng.shuffle(allsc)
    for i, hist in enumerate(allsc[:limit]):
        ev = [dict(e) for e in hist]
        ids = [e["id"] for e in ev if "id" in e]
        res.append({"name": f"{prefix}-model-{i}", "ev": ev + tail(ids)})
    return res


def gen_c01(rng, tier, scns):
    big = tier == "thorough"
    out = from_scenarios(scns, rng, tier, "c01", lambda ids: [{"op": "par.read", "of": x} for x in ids], 4000 if big else 250)
    for i in range(3000 if big else 260):
        s = Ses(f"c01-rand-{i}")
        ty = rng.choice([None, None, None, "F", "view", "int"])
        x = new_par(s, rng, scale=rng.choice(WIDE), mscale=rng.choice(MWIDE), ty=None if ty == "int" else ty,
                    pm=None)
        s.add("par.read", of=x)
        for _ in range(rng.randint(1, 3)):
            x = s.add("par.conv", new=True, of=x, route=rng.choice(ROUTES))
            s.add("par.read", of=x)
        out.append(s.done())
    # every constructor combination on integer data passed as integer arrays and as float arrays
    k = 0
    for first in ("h", "c", None):
        for second in ("H", "I", None):
            for tfc in (False, True):
                for ty in ("f", "int"):
                    pm = int_pm(rng)
                    m, h, H = moments(pm)
                    c = [Fr(rng.randint(-3, 3)) for _ in range(3)]
                    a = {"m": S(m), "tfc": tfc, "tfc_explicit": True, "ty": ty}
                    if first == "h":
                        a["h"] = SV(h)
                    if first == "c":
                        a["c"] = SV(c)
                    if second == "H":
                        a["H"] = SV(H)
                    if second == "I":
                        a["I"] = SV(inertia(H))
                    s = Ses(f"c01-ctor-{k}")
                    k += 1
                    x = s.add("par.new", new=True, **a)
                    s.add("par.read", of=x)
                    for r in ROUTES:
                        y = s.add("par.conv", new=True, of=x, route=r)
                        s.add("par.read", of=y)
                    out.append(s.done())
    # integer arrays through the other constructors, zero mass, single points, refused combinations
    for i in range(12):
        s = Ses(f"c01-int-{i}")
        pm = int_pm(rng)
        if i == 0:
            pm = [[Fr(0), [Fr(0)] * 3]]
        elif i == 1:
            pm = [[Fr(0), [Fr(3), Fr(1), Fr(2)]]]
        m, h, H = moments(pm)
        I = inertia(H)
        for ty in ("f", "int", "list") if i else ("f", "int"):
            s.add("par.read", of=s.add("par.pm", new=True, pm=[[S(a), SV(p)] for a, p in pm], ty=ty))
            if ty != "list":
                s.add("par.read", of=s.add("par.vec", new=True, ty=ty, v=SV([m] + h + [I[0][0], I[0][1], I[0][2], I[1][1], I[1][2], I[2][2]])))
                s.add("par.read", of=s.add("par.pim", new=True, ty=ty, J=SV([list(H[j]) + [h[j]] for j in range(3)] + [h + [m]])))
        s.add("par.read", of=s.add("par.zero", new=True))
        out.append(s.done())
    for i, bad in enumerate([dict(h=1, c=1), dict(H=1, I=1), dict(h=1, c=1, H=1), dict(c=1, H=1, I=1), dict(m=1)]):
        s = Ses(f"c01-refuse-{i}")
        a = {"m": "-1" if "m" in bad else "2", "tfc": False}
        for k in ("h", "c"):
            if k in bad:
                a[k] = ["0", "0", "0"] if i % 2 else ["1", "2", "1"]
        for k in ("H", "I"):
            if k in bad:
                a[k] = SV([[2, 0, 0], [0, 2, 0], [0, 0, 3]])
        s.add("par.new", **a)
        out.append(s.done())
    return out


def gen_c02(rng, tier, scns):
    big = tier == "thorough"
    out = from_scenarios(scns, rng, tier, "c02", lambda ids: [{"op": "par.read", "of": x} for x in ids], 4000 if big else 250)
    for i in range(3000 if big else 300):
        sc = rng.choice(WIDE)
        s = Ses(f"c02-rand-{i}")
        x = new_par(s, rng, scale=sc, mscale=rng.choice(MWIDE))
        for _ in range(rng.randint(1, 3)):
            e = rigid(rng, rng.choice([sc, sc, Fr(1)]))
            y = s.add("par.transform", new=True, of=x, **e)
            s.add("par.read", of=y)
            if rng.random() < 0.4:
                # the inverse transform restores the original
                R = quat_mat(e["q"]) if "q" in e else None
                inv = {}
                if "q" in e:
                    inv["q"] = [e["q"][0]] + [S(-Fr(v)) for v in e["q"][1:]]
                if "t" in e:
                    t = [Fr(v) for v in e["t"]]
                    inv["t"] = SV([-v for v in (matvec(transp(R), t) if R else t)])
                s.add("par.read", of=s.add("par.transform", new=True, of=y, **inv))
            x = y
        out.append(s.done())
    for i in range(400 if big else 40):
        # moves that bring the centre of mass to, or close to, the origin or another axis
        s = Ses(f"c02-centre-{i}")
        sc = rng.choice(WIDE)
        pm = point_masses(rng, scale=sc, mscale=rng.choice(MWIDE), zero_mass=0)
        x = new_par(s, rng, pm=pm)
        m, h, H = moments(pm)
        c = [v / m for v in h]
        q = quat(rng) if rng.random() < 0.6 else None
        rc = matvec(quat_mat(q), c) if q else c
        rest = [rng.choice([Fr(0), sc * rng.choice([Fr(1), Fr(1, 1000), Fr(1, 10**5), Fr(1, 10**6)]) * rng.choice([1, -1])]) for _ in range(3)]
        y = s.add("par.transform", new=True, of=x, t=SV(sub(rest, rc)), **({"q": q} if q else {}))
        s.add("par.read", of=y)
        s.add("par.read", of=s.add("par.transform", new=True, of=y, **rigid(rng, sc)))
        out.append(s.done())
    for i in range(12):
        s = Ses(f"c02-int-{i}")
        pm = int_pm(rng)
        x = s.add("par.pm", new=True, pm=[[S(a), SV(p)] for a, p in pm], ty="int")
        ty = rng.choice(["int", "f", "F", "view"])
        y = s.add("par.transform", new=True, of=x, q=quat(rng, rng.choice(["quarter", "half", "third"])), t=SV(ivec(rng)), ty=ty)
        s.add("par.read", of=y)
        z = s.add("par.zero", new=True)
        s.add("par.read", of=s.add("par.transform", new=True, of=z, **rigid(rng)))
        s.add("par.read", of=s.add("par.transform", new=True, of=z, q=quat(rng), t=SV(ivec(rng))))
        out.append(s.done())
    return out


def small_shape(s, rng, scale=1, tag=None):
    k = tag or rng.choice(["box", "ell", "cyl", "cap", "poly"])
    pose = {}
    if rng.random() < 0.8:
        pose["c"] = SV(vec(rng, 3, scale))
    if rng.random() < 0.8:
        pose["q"] = quat(rng)
    if k in ("box", "ell"):
        return s.add("shape.new", new=True, how=k, he=SV([pos(rng, scale) for _ in range(3)]), **pose)
    if k in ("cyl", "cap"):
        return s.add("shape.new", new=True, how=k, L=S(pos(rng, scale)), r=S(pos(rng, scale)), **pose)
    return s.add("shape.new", new=True, how="simplex", ext=SV([pos(rng, scale) for _ in range(3)]))


def massless(s, rng, sc):
    """No mass: nothing at all, or second moments alone (the limit of little mass far away)."""
    if rng.random() < 0.5:
        return s.add("par.zero", new=True)
    H = moments(point_masses(rng, scale=sc))[2]
    return s.add("par.new", new=True, m="0", tfc=rng.random() < 0.5, **({"H": SV(H)} if rng.random() < 0.6 else {"I": SV(inertia(H))}))


def gen_c03(rng, tier, scns):
    big = tier == "thorough"
    out = from_scenarios(scns, rng, tier, "c03", lambda ids: [{"op": "par.read", "of": x} for x in ids] +
                         [{"op": "par.sum", "id": "t", "xs": ids, "how": "sum"}, {"op": "par.read", "of": "t"}], 4000 if big else 200)
    for i in range(2500 if big else 220):
        sc, ms = rng.choice(WIDE), rng.choice(MWIDE)
        s = Ses(f"c03-par-{i}")
        mixed = rng.random() < 0.2
        ids = [new_par(s, rng, scale=sc, mscale=rng.choice(MWIDE) if mixed else ms) if rng.random() < 0.85 else massless(s, rng, sc) for _ in range(rng.randint(2, 4))]
        for _ in range(2):
            x, y = rng.choice(ids), rng.choice(ids)
            z = s.add("par.add", new=True, x=x, y=y)
            s.add("par.read", of=z)
            ids.append(z)
        if rng.random() < 0.5:
            ids.append(s.add("par.transform", new=True, of=rng.choice(ids), **rigid(rng, sc)))
        xs = rng.sample(ids, rng.randint(1, len(ids)))
        z = s.add("par.sum", new=True, xs=xs, how=rng.choice(["sum", "sumzero", "gen"]))
        s.add("par.read", of=z)
        # operands keep their values
        for x in rng.sample(ids, min(2, len(ids))):
            s.add("par.read", of=x)
        # addition commutes with transforms
        e = rigid(rng, sc)
        a = s.add("par.transform", new=True, of=z, **e)
        s.add("par.read", of=a)
        out.append(s.done())
    for i in range(4):
        s = Ses(f"c03-zero-{i}")
        zs = [s.add("par.zero", new=True) for _ in range(3)]
        s.add("par.read", of=s.add("par.add", new=True, x=zs[0], y=zs[1]))
        s.add("par.read", of=s.add("par.sum", new=True, xs=zs, how=("sum", "sumzero", "gen")[i % 3]))
        x = new_par(s, rng)
        s.add("par.read", of=s.add("par.add", new=True, x=x, y=zs[0]))
        s.add("par.read", of=s.add("par.add", new=True, x=zs[0], y=x))
        out.append(s.done())
    for i in range(600 if big else 70):
        s = Ses(f"c03-body-{i}")
        bodies = []
        for _ in range(rng.randint(2, 4)):
            shapes = [small_shape(s, rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
            kw = {}
            if rng.random() < 0.7:
                kw["par"] = new_par(s, rng)
            elif rng.random() < 0.5:
                kw["par"] = s.add("par.zero", new=True)
            if len(shapes) == 1 and rng.random() < 0.5:
                kw["bare"] = True
            bodies.append(s.add("body.new", new=True, shapes=shapes, **kw))
        b = s.add("body.add", new=True, x=rng.choice(bodies), y=rng.choice(bodies))
        s.add("body.read", of=b)
        t = s.add("body.sum", new=True, xs=bodies)
        s.add("body.read", of=t)
        if rng.random() < 0.5:
            u = s.add("body.add", new=True, x=b, y=t)
            u = s.add("body.transform", new=True, of=u, **rigid(rng))
            s.add("body.read", of=u)
        for x in bodies[:2]:
            s.add("body.read", of=x)
        out.append(s.done())
    return out


def gen_c04(rng, tier, scns):
    big = tier == "thorough"
    out = []
    epss = [None, "0", "1/1000", "1/100", "1/10", "1/2", "1", "3", "10"]

    def ask(s, x):
        for eps in epss:
            s.add("par.consistent", of=x, **({"eps": eps} if eps is not None else {}))
    for i in range(2000 if big else 200):
        s = Ses(f"c04-pm-{i}")
        sc = rng.choice([Fr(1), Fr(1), Fr(1, 10), Fr(10), Fr(100)])
        x = new_par(s, rng, scale=sc, mscale=rng.choice([1, 1, 1, Fr(1, 50), 50]), pm=None, how=rng.choice(["pm", "vec", "pim"]))
        ask(s, x)
        y = s.add("par.transform", new=True, of=x, **rigid(rng, sc))
        ask(s, y)
        z = s.add("par.add", new=True, x=x, y=y)
        ask(s, z)
        out.append(s.done())
    for i in range(300 if big else 60):
        s = Ses(f"c04-random-{i}")
        x = s.add("par.random", new=True, seed=rng.randint(0, 10**6))
        s.add("par.consistent", of=x)
        s.add("par.consistent", of=s.add("par.transform", new=True, of=x, **rigid(rng)))
        out.append(s.done())
    # parameters with a prescribed negative direction: J = sum of squares minus a multiple of an outer product
    for i in range(2000 if big else 240):
        s = Ses(f"c04-neg-{i}")
        k = rng.randint(2, 5)
        vs = [[num(rng) for _ in range(4)] for _ in range(k)]
        ws = [pos(rng) for _ in range(k)]
        sgn = [1] * (k - 1) + [-1]
        mode = rng.choice(["outer", "entry", "inertia", "small"])
        if mode == "small":
            # consistent except for one small negative direction
            vs = [[Fr(int(a == b)) for b in range(4)] for a in range(4)]
            vs[0][3] = num(rng)
            ws = [pos(rng) for _ in range(3)] + [pos(rng)]
            j = rng.randrange(3)
            ws[j] = -Fr(1, rng.choice([10, 1000, 10**5]))
            sgn = [1] * 4
        J = [[sum(g * w * v[a] * v[b] for g, w, v in zip(sgn, ws, vs)) for b in range(4)] for a in range(4)]
        if mode == "entry":
            J = [[sum(w * v[a] * v[b] for w, v in zip(ws, vs)) for b in range(4)] for a in range(4)]
            a, b = rng.sample(range(3), 2)
            J[a][b] = J[b][a] = J[a][b] + num(rng, 3)
        if mode == "inertia":
            # inertia matrix violating the triangle inequality (second moment with a negative diagonal)
            m = pos(rng)
            J = [[Fr(0)] * 4 for _ in range(4)]
            J[3][3] = m
            d = [pos(rng), pos(rng), -pos(rng, Fr(1, rng.choice([1, 10, 100])))]
            rng.shuffle(d)
            for a in range(3):
                J[a][a] = d[a]
        if J[3][3] <= 0:
            J[3][3] = abs(J[3][3]) + 1
        if rng.random() < 0.35:
            # the same body small and light
            l, mu = Fr(1, rng.choice([10, 100, 1000])), Fr(1, rng.choice([1, 1000, 10**6]))
            D = [l, l, l, Fr(1)]
            J = [[mu * D[a] * D[b] * J[a][b] for b in range(4)] for a in range(4)]
        x = s.add("par.pim", new=True, J=SV(J))
        ask(s, x)
        y = s.add("par.transform", new=True, of=x, **rigid(rng))
        ask(s, y)
        out.append(s.done())
    return out


MC = lambda d, n, emit: f"CONSTANTS Depth = {d} MaxObj = {n} Emit = {emit}\nINIT Init\nNEXT Next\nINVARIANTS MomentsExact RepsExact Rigid Monoid Emitted\nCHECK_DEADLOCK FALSE\n"


def models(tier):
    return [("MC_Inertia", MC(3, 3, "TRUE") if tier == "quick" else MC(4, 4, "TRUE"))]


PROPS = {
    "C01": {"models": models, "gen": gen_c01},
    "C02": {"models": models, "gen": gen_c02},
    "C03": {"models": models, "gen": gen_c03},
    "C04": {"models": models, "gen": gen_c04},
}
