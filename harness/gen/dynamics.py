"""Scenarios for densities, wrenches and matrix helpers: C05 - C07."""
from .common import *
from .inertia import new_par, point_masses
from .shapes import new_shape, moved, poly_vertices, Shp

MD = "CONSTANT Big = {}\nINIT Init\nNEXT Next\nINVARIANTS PiecesExact Split SurfaceIsGrowth BallGrowth CylGrowth DensMoves NewtonEuler Regressor Power Helpers Emitted\nCHECK_DEADLOCK FALSE\n"


def models(tier):
    return [("MC_Dyn", MD.format("FALSE" if tier == "quick" else "TRUE"))]


def density_defined(k, sh, how):
    if how == "uniform":
        return k in ("box", "ell", "cyl")
    if how == "hollow":
        return (k == "box" and sum(h == 0 for h in sh.he) <= 1) or (k == "ell" and sh.he[0] != 0 and len(set(sh.he)) == 1)
    return k == "box" and any(sh.he)


def dens(s, rng, i, k, sh, how, m, **kw):
    x = s.add("dens", new=True, of=i, how=how, m=S(m), **kw)
    s.add("par.read", of=x)
    return x


def gen_c05(rng, tier, scns):
    big = tier == "thorough"
    out = []
    sc = [h for h in scns.get("MC_Dyn", []) if h[0]["op"] == "shape.new"]
    for i, hist in enumerate(sc):
        ev = [dict(e) for e in hist]
        he = [Fr(x) for x in ev[0]["he"]]
        z = sum(h == 0 for h in he)
        for how in ("uniform", "hollow", "wireframe"):
            if (how == "hollow" and z > 1) or (how == "wireframe" and z == 3):
                continue
            ev += [{"op": "dens", "of": "s", "how": how, "m": "2", "id": how}, {"op": "par.read", "of": how}]
        out.append({"name": f"c05-model-{i}", "ev": ev})
    for i in range(3000 if big else 330):
        s = Ses(f"c05-rand-{i}")
        k = ["box", "ell", "cyl", "sphere", "box", "poly"][i % 6]
        scale = rng.choice(WIDE)
        if k == "sphere":
            e = {}
            if rng.random() < 0.8:
                e["c"] = SV(vec(rng, 3, rng.choice([scale, Fr(1)])))
            r = pos(rng, scale)
            x = s.add("shape.new", new=True, how="sphere", r=S(r), **e)
            sh, k = Shp("ell", [Fr(v) for v in e["c"]] if "c" in e else None, None, he=[r] * 3), "ell"
        else:
            x, sh = new_shape(s, rng, k, scale=scale, degenerate=rng.choice([0, 0, 0.3]))
        if k in ("box", "ell") and i % 6 != 3 and rng.random() < 0.15:
            # thin or elongated, but not flat
            th = rng.choice([Fr(1, 20), Fr(1, 100), Fr(1, 1000)])
            he = [h or Fr(1) for h in sh.he]
            he[rng.randrange(3)] *= th
            if rng.random() < 0.3:
                he[rng.randrange(3)] *= th
            e = {"q": quat(rng), "c": SV(vec(rng, 3, scale))}
            x = s.add("shape.new", new=True, how=k, he=SV(he), **e)
            sh = Shp(k, [Fr(v) for v in e["c"]], quat_mat(e["q"]), he=he)
        if rng.random() < 0.4:
            x, sh = moved(s, rng, x, sh, n=1)
        m = Fr(0) if rng.random() < 0.06 else pos(rng, rng.choice(MWIDE))
        if k == "poly":
            if rng.random() < 0.5:
                p = s.add("dens.vertex", new=True, of=x, m=S(m), **({"ty": "int"} if rng.random() < 0.3 else {}))
            else:
                p = s.add("dens.vertex", new=True, of=x, ms=SV([Fr(0) if rng.random() < 0.2 else pos(rng) for _ in sh.V]),
                          ty=rng.choice(["f", "list", "tuple", "f"]))
            s.add("par.read", of=p)
        else:
            for how in ("uniform", "hollow", "wireframe"):
                if density_defined(k, sh, how):
                    d = dens(s, rng, x, k, sh, how, m)
                    if rng.random() < 0.4:
                        # the density moves with the shape
                        e = rigid(rng, scale)
                        y = s.add("shape.transform", new=True, of=x, **e)
                        dens(s, rng, y, k, sh, how, m)
                        s.add("par.read", of=s.add("par.transform", new=True, of=d, **e))
            if k == "box" and rng.random() < 0.5:
                p = s.add("dens.vertex", new=True, of=x, m=S(m))
                s.add("par.read", of=p)
        out.append(s.done())
    for i in range(40 if big else 16):
        # integer sizes, masses and poses; refused masses
        s = Ses(f"c05-int-{i}")
        k = ["box", "ell", "cyl", "cube"][i % 4]
        ty = rng.choice(["int", "intlist", "list"])
        e = {"c": SV(ivec(rng)), "q": quat(rng, rng.choice(["quarter", "half", "third"])), "ty": ty}
        if k == "cube":
            a = rng.randint(1, 4)
            x = s.add("shape.new", new=True, how="cube", a=S(a), **e)
        elif k == "cyl":
            x = s.add("shape.new", new=True, how=k, L=S(rng.randint(1, 4)), r=S(rng.randint(1, 4)), **e)
        else:
            x = s.add("shape.new", new=True, how=k, he=SV([Fr(rng.randint(1, 5)) for _ in range(3)]), **e)
        for how in ("uniform", "hollow", "wireframe"):
            if how == "uniform" or k in ("box", "cube"):
                s.add("par.read", of=s.add("dens", new=True, of=x, how=how, m=S(rng.randint(1, 5)), ty="int"))
        s.add("dens", of=x, how="uniform", m="-1")
        if k in ("box", "cube"):
            s.add("dens", of=x, how="hollow", m="-1/100")
            s.add("dens", of=x, how="wireframe", m="-3")
        out.append(s.done())
    for i in range(30 if big else 12):
        # an elongated shape is a sum of its pieces
        s = Ses(f"c05-split-{i}")
        e = rigid(rng, kind="both")
        he = [pos(rng, rng.choice(SCALES)) for _ in range(3)]
        m = pos(rng)
        j = rng.randrange(3)
        R, t = quat_mat(e["q"]), [Fr(v) for v in e["t"]]
        hh = [h / 2 if a == j else h for a, h in enumerate(he)]
        ids = []
        for sg in (1, -1):
            off = [sg * he[j] / 2 if a == j else Fr(0) for a in range(3)]
            b = s.add("shape.new", new=True, how="box", he=SV(hh), q=e["q"], c=SV(add(matvec(R, off), t)))
            ids.append(s.add("dens", new=True, of=b, how="uniform", m=S(m / 2)))
        s.add("par.read", of=s.add("par.sum", new=True, xs=ids, how="sum"))
        w = s.add("shape.new", new=True, how="box", he=SV(he), q=e["q"], c=SV(t))
        s.add("par.read", of=s.add("dens", new=True, of=w, how="uniform", m=S(m)))
        out.append(s.done())
    return out


def new_sv(s, rng, scale=1, ty=None):
    kw = {"ty": ty} if ty else {}
    k = rng.choice(["both", "both", "both", "vec", "ang", "lin", "zero"])
    v = lambda: SV(vec(rng, 3, scale))
    if k == "vec":
        return s.add("sv.vec", new=True, v=v() + v(), **({} if ty == "list" else kw))
    if k == "zero":
        return s.add("sv.zero", new=True)
    f = {}
    if k in ("both", "ang"):
        f["ang"] = v()
    if k in ("both", "lin"):
        f["lin"] = v()
    return s.add("sv.new", new=True, **f, **kw)


def gen_c06(rng, tier, scns):
    big = tier == "thorough"
    out = []
    sc = [h for h in scns.get("MC_Dyn", []) if h[0]["op"] != "shape.new"]
    rng.shuffle(sc)
    for i, hist in enumerate(sc[:2000 if big else 120]):
        out.append({"name": f"c06-model-{i}", "ev": [dict(e) for e in hist]})
    for i in range(3000 if big else 330):
        s = Ses(f"c06-rand-{i}")
        sl, ms, sv = rng.choice(WIDE), rng.choice(MWIDE), rng.choice([Fr(1), Fr(1), Fr(1, 100), Fr(50), Fr(1, 5000)])
        if rng.random() < 0.5:
            x = new_par(s, rng, scale=sl, mscale=ms)
            y = new_par(s, rng, scale=sl, mscale=ms)
        else:
            b, _ = new_shape(s, rng, rng.choice(["box", "cyl", "ell"]))
            x = s.add("dens", new=True, of=b, how="uniform", m=S(pos(rng, ms)))
            y = s.add("par.zero", new=True) if rng.random() < 0.3 else new_par(s, rng)
        ty = rng.choice([None, None, None, "list", "int"])
        V, A = new_sv(s, rng, sv, ty), new_sv(s, rng, rng.choice([sv, sv, sv * sv]), ty)
        s.add("wrench", of=x, V=V, A=A)
        s.add("wrench", of=s.add("par.add", new=True, x=x, y=y), V=V, A=A)
        s.add("wrench", of=s.add("par.transform", new=True, of=x, **rigid(rng, sl)), V=V, A=A)
        # other motions built by arithmetic
        W = s.add("sv.add", new=True, x=V, y=A)
        a = rng.choice(["2", "-1/2", "3", "1/4", "0"])
        U = s.add("sv.mul", new=True, x=W, a=a, ty=rng.choice(["f", "int"]))
        D = s.add("sv.sub", new=True, x=U, y=V)
        Q = s.add("sv.div", new=True, x=A, a=rng.choice(["2", "-4", "3"]), ty=rng.choice(["f", "int"]))
        for v in (V, A, W, U, D, Q):
            s.add("sv.read", of=v)
        s.add("wrench", of=y, V=D, A=Q)
        out.append(s.done())
    for i in range(10):
        s = Ses(f"c06-int-{i}")
        m = rng.randint(1, 4)
        x = s.add("par.pm", new=True, pm=[["2", SV(ivec(rng))], ["1", SV(ivec(rng))], ["3", SV(ivec(rng))]], ty="int")
        V = s.add("sv.vec", new=True, v=SV(ivec(rng) + ivec(rng)), ty="int")
        A = s.add("sv.new", new=True, ang=SV(ivec(rng)), lin=SV(ivec(rng)), ty=("int", "intlist", "tuple")[i % 3])
        s.add("wrench", of=x, V=V, A=A)
        for v in (s.add("sv.div", new=True, x=V, a="2", ty="int"), s.add("sv.mul", new=True, x=V, a="1/2"), s.add("sv.add", new=True, x=V, y=A), V):
            s.add("sv.read", of=v)
        out.append(s.done())
    return out


def sym(rng, n, f=None):
    f = f or (lambda: num(rng))
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            A[i][j] = A[j][i] = f()
    return A


def mat(rng, n, m, f=None):
    f = f or (lambda: num(rng))
    return [[f() for _ in range(m)] for _ in range(n)]


def gen_c07(rng, tier, scns):
    big = tier == "thorough"
    out = []
    rep = 6 if big else 1
    TY = ["f", "f", "F", "view", "int"]

    def ses(name, evs):
        s = Ses(name)
        for e in evs:
            s.add("util", **e)
        out.append(s.done())
    for r in range(rep):
        k = 0
        for n in range(1, 9 if big else 7):
            evs = []
            for off in range(-n, n + 2):
                ty = rng.choice(TY)
                f = (lambda: Fr(rng.randint(-9, 9))) if ty == "int" else None
                evs.append(dict(f="vech", A=SV(mat(rng, n, n, f)), k=off, ty=ty, kx=rng.random() < 0.5))
            for _ in range(3):
                ty = rng.choice(TY)
                f = (lambda: Fr(rng.randint(-9, 9))) if ty == "int" else None
                evs.append(dict(f="vech_unvech", A=SV(sym(rng, n, f)), ty=ty))
            evs.append(dict(f="vech", A=SV(mat(rng, n, n + 1)), k=0))
            if n > 1:
                evs.append(dict(f="vech", A=SV(mat(rng, n, n - 1)), k=0))
            ses(f"c07-vech-{r}-{n}", evs)
        ses(f"c07-unvech-{r}", [dict(f="unvech", a=SV(vec(rng, m)), ty=rng.choice(["f", "list", "view"])) for m in range(1, 46 if big else 37)]
            + [dict(f="unvech", a=SV(ivec(rng, m)), ty="int") for m in (1, 3, 6, 10, 15, 7, 8)])
        xs = [Fr(x) for x in list(range(-6, 60)) + [0]] + [Fr(n * (n + 1), 2) + dd for n in (20, 100, 1000, 12345) for dd in (-1, 0, 1)]
        ses(f"c07-tri-{r}", [dict(f="tri", x=S(x), ty="int") for x in xs] + [dict(f="tri", x=S(x), ty="f") for x in xs]
            + [dict(f="tri", x=S(x)) for x in (Fr(5, 2), Fr(13, 4), Fr(1, 2), Fr(-3, 2), Fr(6) + Fr(1, 2**20), Fr(10) - Fr(1, 2**20))])
    for i in range(400 if big else 60):
        sc = rng.choice(WIDE + (Fr(1, 10**8), Fr(10**7)))
        ty = rng.choice(TY)
        f = (lambda: Fr(rng.randint(-9, 9))) if ty == "int" else (lambda: num(rng, sc))

        def v3():
            own = rng.choice([sc, sc, Fr(1), Fr(1, 10**7), Fr(1, 10**12)])
            return SV([f() if ty == "int" else num(rng, own) for _ in range(3)])
        evs = [dict(f="skew3", a=v3(), b=v3(), ty=ty), dict(f="lift3", a=v3(), A=SV(sym(rng, 3, f)), ty=ty),
               dict(f="lift6", ang=v3(), lin=v3(), ty=ty), dict(f="H2I", A=SV(sym(rng, 3, f)), ty=ty),
               dict(f="contact", a=v3(), b=v3(), ty=ty),
               dict(f="pimvec", v=SV([f() for _ in range(10)]), ty="int" if ty == "int" else "f", expr=bool(i % 2))]
        evs[-1]["v"][0] = S(abs(Fr(evs[-1]["v"][0])))
        if Fr(evs[-1]["v"][0]) == 0:
            evs[-1]["v"][0] = "1"
        evs.append(dict(f="box_vertices", he=SV([Fr(0) if rng.random() < 0.15 else abs(f()) for _ in range(rng.randint(1, 5))]), ty=rng.choice(["f", "list", "int", "view"])))
        # homogeneous transforms in every dimension
        for d in ([1, 2, 3, 4, 5] if i % 4 == 0 else [3, rng.choice([2, 3, 4])]):
            for op in ("tmat", "clean"):
                e = dict(f=op, d=d, ty=rng.choice(["f", "f", "list", "F"]), dx=rng.random() < 0.5)
                kk = rng.choice(["both", "both", "rot", "trans", "none"])
                if kk in ("both", "rot"):
                    if d == 3:
                        e["q"] = quat(rng)
                    else:
                        e["R"] = SV(rot_n(rng, d))
                if kk in ("both", "trans"):
                    e["t"] = SV([num(rng, sc) for _ in range(d)])
                if op == "tmat":
                    e["p"] = SV(vec(rng, d, sc))
                evs.append(e)
        # block matrices
        n, m = rng.randint(1, 4), rng.randint(1, 3)
        b = rng.choice(["mat", "mat", "vec"])
        if b == "vec":
            m = 1
        e = dict(f="schur", A=SV(mat(rng, n, n)), C=SV(mat(rng, m, m)), bshape=b, expr=rng.choice(["", "A", "B", "C", "ABC", "AB"]))
        B = mat(rng, n, m)
        e["B"] = SV([x[0] for x in B]) if b == "vec" else SV(B)
        if m == 1 and rng.random() < 0.7:
            e["scalar"] = "C"
        if n == 1 and rng.random() < 0.7:
            e["scalar"] = "both" if "scalar" in e else "A"
        evs.append(e)
        # times: away from multiples of the step unless the quotient is exact in binary
        st = Fr(rng.randint(1, 16), rng.choice([2, 4, 8, 16]))
        q = Fr(rng.randint(1, 60)) if rng.random() < 0.5 else Fr(rng.randint(0, 59)) + Fr(rng.choice([1, 2, 3]), 4)
        q = q or Fr(1)
        evs.append(dict(f="times", dur=S(st * q), st=S(st)))
        evs.append(dict(f="times", dur=S(Fr(rng.randint(1, 40)) / 10 + Fr(1, 20)), st="1/10", dflt=rng.random() < 0.5))
        N = rng.randint(1, 4)
        evs.append(dict(f="rmse", Ys=SV([mat(rng, 6, 10) for _ in range(N)]), ws=SV(mat(rng, N, 6)), th=SV(vec(rng, 10)), W=rng.random() < 0.3))
        ses(f"c07-misc-{i}", evs)
    return out


PROPS = {
    "C05": {"models": models, "gen": gen_c05},
    "C06": {"models": models, "gen": gen_c06},
    "C07": {"models": models, "gen": gen_c07},
}
