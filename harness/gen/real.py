"""Scenarios for density realizability: C24 - C27."""
from .common import *
from .inertia import new_par
from .shapes import new_shape, poly_vertices, moved, Shp, unit, det, I3

FAMS = {"box": ["sdp", "vertex", "custom"], "poly": ["sdp", "vertex"], "cyl": ["sdp", "custom"], "ell": ["ell"]}
RSC = (Fr(1), Fr(1), Fr(1), Fr(1, 5), Fr(3))
QSC = (Fr(1), Fr(1), Fr(1), Fr(1, 2))      # shapes put to the solver: well scaled, its accuracy is not what is judged


def centre(sh):
    if sh.k == "poly":
        n = len(sh.V)
        return [sum(v[i] for v in sh.V) / n for i in range(3)]
    return sh.c


def inner(rng, sh, lam=None):
    """A point of the shape: anything from its centre to its boundary."""
    lam = lam if lam is not None else rng.choice([Fr(0), Fr(1, 3), Fr(1, 2), Fr(3, 4), Fr(1), Fr(1)])
    c = centre(sh)
    if sh.k == "poly":
        w = [Fr(rng.choice([0, 0, 1, 2])) for _ in sh.V]
        if not any(w):
            w[rng.randrange(len(w))] = Fr(1)
        b = [sum(a * v[i] for a, v in zip(w, sh.V)) / sum(w) for i in range(3)]
    elif sh.k == "box":
        b = sh.world([h * rng.choice([1, -1, Fr(rng.randint(-4, 4), 4)]) for h in sh.he])
    elif sh.k == "ell":
        b = sh.world([a * x for a, x in zip(sh.he, unit(rng, 3))])
    else:
        u = unit(rng, 2)
        b = sh.world([sh.r * u[0], sh.r * u[1], sh.L * rng.choice([Fr(1, 2), Fr(-1, 2), Fr(rng.randint(-4, 4), 8)])])
    return add(c, [lam * x for x in sub(b, c)])


def real_shape(s, rng, kind=None, degenerate=0.0, sc=None, far=False):
    k = kind or rng.choice(["box", "cyl", "ell", "poly"])
    sc = sc or rng.choice(RSC if far else QSC)
    while True:
        n = len(s.ev)
        x, sh = new_shape(s, rng, k, scale=sc / 2, degenerate=degenerate)
        ext = [h for h in (sh.he or [sh.L, sh.r] if k != "poly" else [Fr(1)]) if h]
        # keep the proportions moderate: solver accuracy is not what is judged
        if ext and max(ext) <= 12 * min(ext) and (k != "poly" or len(sh.V) <= 10) and max(abs(v) for v in centre(sh)) <= (8 if far else 2) * sc:
            break
        del s.ev[n:]
    if rng.random() < 0.5:
        x, sh = moved(s, rng, x, sh, n=1, sc=sc if far else sc / 4)
    return x, sh


def direction(rng, shs, tight=True):
    """A direction: a common axis when there is one, or any."""
    sh = rng.choice(shs)
    if tight and sh.k != "poly":
        i = rng.randrange(3)
        y = [Fr(int(j == i)) for j in range(3)]
        if sh.k == "cyl" and rng.random() < 0.4:
            u = unit(rng, 2)
            y = [u[0], u[1], Fr(0)]
        a = matvec(sh.R, y)
        return [x * rng.choice([1, -1]) for x in a] if rng.random() < 0.2 else a
    return [Fr(x) for x in rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [-1, 2, 1], [3, -1, 2]])]


def about(rng, shs):
    sh = rng.choice(shs)
    return centre(sh) if rng.random() < 0.4 else inner(rng, sh) if rng.random() < 0.5 else vec(rng, 3, 1) if rng.random() < 0.5 else [Fr(0)] * 3


def pmasses(rng, shs, n=None, lam=None, wide=False):
    n = n or rng.choice([1, 1, 2, 3, 4, 6])
    sc = rng.choice([Fr(1), Fr(1), Fr(1, 20), Fr(20)]) if wide else Fr(1)
    return [[S(pos(rng, sc) if rng.random() > 0.1 else 0), SV(inner(rng, rng.choice(shs), lam))] for _ in range(n)]


def dist(rng, shs, pm=None):
    return {"q": "dist", "pm": pm or pmasses(rng, shs, wide=True), "a": SV(direction(rng, shs)), "p": SV(about(rng, shs))}


def query_c24(rng, sh, fam, n):
    qs = [dist(rng, [sh]) for _ in range(n)]
    # everything in one extreme point; the full-rank uniform system
    qs.append(dist(rng, [sh], [[S(pos(rng)), SV(inner(rng, sh, Fr(1)))]]))
    if fam == "sdp":
        pm = pmasses(rng, [sh], 8, Fr(1, 2))
        pm = [[m if m != "0" else "1", p] for m, p in pm]
        qs.append({"q": "feas", "pm": pm, "a": ["1", "0", "0"], "interior": fullrank(pm)})
    return qs


def fullrank(pm):
    P = [[Fr(x) for x in p] for _, p in pm]
    return any(abs(det([sub(P[i], P[0]), sub(P[j], P[0]), sub(P[k], P[0])])) > Fr(1, 1000)
               for i in range(1, len(P)) for j in range(i + 1, len(P)) for k in range(j + 1, len(P)))


def query_c25(rng, shs, fam, fmt, eps, body=False):
    qs = []
    for _ in range(2):
        qs.append({"q": "com", "a": SV(direction(rng, shs, rng.random() < 0.5)), "p": SV(about(rng, shs))})
    for i in range(4):
        a = direction(rng, shs, i < 3)
        qs.append({"q": "sec", "a": SV(a), "p": SV(about(rng, shs))})
    qs.append({"q": "secmin", "a": SV(direction(rng, shs, rng.random() < 0.5)), "p": SV(vec(rng, 3, 2))})
    sh = shs[0]
    if len(shs) == 1 and sh.k != "poly":
        w = [Fr(rng.randint(0, 3)) for _ in range(3)]
        if sh.k == "cyl" and fam == "sdp" or sh.k == "cyl":
            w[1] = w[0] if rng.random() < 0.7 else Fr(0)
        qs.append({"q": "wq", "w": SV(w), "R": SV(sh.R), "c": SV(sh.c)})
    if fam in ("vertex", "custom") and sh.k in ("box", "poly"):
        a, b = vec(rng, 3, 1), vec(rng, 3, 1)
        A = [[x * y + u * v for y, v in zip(a, b)] for x, u in zip(a, b)]
        qs.append({"q": "quad", "A": SV(A), "b": SV(vec(rng, 3, 1))})
    v = [Fr(x) for x in rng.choice([[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [1, -1, 2, 0]])]
    c = centre(sh)
    qs.append({"q": "eig", "v": SV(v)})
    a = direction(rng, shs)
    qs.append({"q": "eig", "v": SV(a + [-sum(x * y for x, y in zip(a, c))])})
    if fmt == "mat":
        i = rng.randrange(3)
        qs.append({"q": "asym", "i": i, "j": rng.randint(i + 1, 3)})
    if eps == 0:
        qs.append({"q": "zero"})
        # parameters of distributions outside
        for _ in range(2):
            a = direction(rng, shs)
            p = add(inner(rng, sh, Fr(1)), [x * rng.choice([Fr(1, 2), 1, 3]) for x in a])
            pm = pmasses(rng, shs, 2)[: rng.randint(0, 2)] + [[S(pos(rng, 3)), SV(p)]]
            qs.append({"q": "dist", "pm": pm, "a": SV(a), "p": SV(about(rng, shs))})
        if fam == "sdp" and not body:
            a = direction(rng, shs)
            p = add(inner(rng, sh, Fr(1)), [x * 3 for x in a])
            qs.append({"q": "feas", "pm": [["1", SV(p)]], "a": SV(a), "interior": False})
    else:
        qs.append(dist(rng, shs, pmasses(rng, shs, 12)))
        qs.append(dist(rng, shs, pmasses(rng, shs, 8, Fr(1))))
    return qs


def gen_c24(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = list(scns.get("MC_Real", []))
    rng.shuffle(al)
    byshape = {}
    for sc in al:
        byshape.setdefault(json_key(sc["shape"]), []).append(sc)
    for j, (_, scs) in enumerate(sorted(byshape.items())):
        sh = scs[0]["shape"]
        k = sh["k"]
        for fam in FAMS[k]:
            for fmt in ("mat", "vec"):
                s = Ses(f"c24-model-{j}-{fam}-{fmt}")
                x = model_shape(s, sh)
                qs = [{"q": "dist", "pm": sc["pm"], "a": ["1", "0", "0"], "p": ["0", "0", "0"]} for sc in rng.sample(scs, min(len(scs), 400 if big else 25))]
                s.add("real.query", of=x, fam=fam, fmt=fmt, qs=qs)
                out.append(s.done())
    for i in range(1500 if big else 100):
        s = Ses(f"c24-rand-{i}")
        k = ["box", "cyl", "ell", "poly", "ell"][i % 5]
        x, sh = real_shape(s, rng, k, degenerate=0.35 if i % 5 == 4 else 0)
        for fam in FAMS[k]:
            e = {}
            if fam in ("sdp",) and rng.random() < 0.05:
                e["d"] = 3
            if rng.random() < 0.2:
                e["eps"] = "0"
            s.add("real.query", of=x, fam=fam, fmt=rng.choice(["mat", "vec", "vec", "psd", "sym"]), qs=query_c24(rng, sh, fam, 5), **e)
        out.append(s.done())
    return out


def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)


def model_shape(s, sh):
    k = sh["k"]
    if k in ("box", "ell"):
        return s.add("shape.new", new=True, how=k, he=sh["he"], c=sh["c"], R=sh["R"])
    if k == "cyl":
        return s.add("shape.new", new=True, how=k, L=sh["L"], r=sh["r"], c=sh["c"], R=sh["R"])
    return s.add("shape.new", new=True, how="poly", V=sh["V"])


def gen_c25(rng, tier, scns):
    big = tier == "thorough"
    out = []
    for i in range(2000 if big else 130):
        s = Ses(f"c25-rand-{i}")
        k = ["box", "cyl", "ell", "poly", "ell"][i % 5]
        x, sh = real_shape(s, rng, k, degenerate=0.35 if i % 10 == 4 else 0)
        for fam in FAMS[k]:
            e = {}
            fmt = rng.choice(["mat", "mat", "vec", "vec", "psd"])
            eps = rng.choice([Fr(0), Fr(0), Fr(1, 100), Fr(1, 1000), Fr(1, 20)])
            if eps:
                e["eps"] = S(eps)
            if fam in ("sdp",) and rng.random() < 0.05:
                e["d"] = 3
            s.add("real.query", of=x, fam=fam, fmt=fmt, qs=query_c25(rng, [sh], fam, fmt, eps), **e)
        out.append(s.done())
    return out


def full_par(s, rng, sh, n=None, stretch=Fr(1), off=None):
    """Point masses around the centre of a shape, stretched by a factor."""
    c = centre(sh)
    pm = []
    for _ in range(n or rng.randint(4, 7)):
        p = inner(rng, sh, rng.choice([Fr(1), Fr(1), Fr(1, 2)]))
        p = add(c, [stretch * x for x in sub(p, c)])
        if off:
            p = add(p, off)
        pm.append([S(pos(rng, Fr(1))), SV(p)])
    return s.add("par.pm", new=True, pm=pm)


def gen_c26(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = [sc for sc in scns.get("MC_Real", []) if sc["shape"]["k"] == "ell"]
    rng.shuffle(al)
    for i, sc in enumerate(al[:6000 if big else 300]):
        s = Ses(f"c26-model-{i}")
        x = model_shape(s, sc["shape"])
        p = s.add("par.pm", new=True, pm=sc["pm"])
        s.add("ell.can", of=x, par=p, eps="-1/1000000")
        y, q = x, p
        if rng.random() < 0.7:
            e = rigid(rng, 1, "both")
            y = s.add("shape.transform", new=True, of=x, **e)
            q = s.add("par.transform", new=True, of=p, **e)
            s.add("ell.can", of=y, par=q, eps="-1/1000000")
        # shrink the ellipsoid, or move the mass: no longer inside in general
        z = s.add("par.transform", new=True, of=q, t=SV([Fr(rng.randint(-3, 3), 2) for _ in range(3)]))
        s.add("ell.can", of=y, par=z, eps="-1/1000000")
        s.add("ell.can", of=y, par=z)
        out.append(s.done())
    for i in range(4000 if big else 300):
        s = Ses(f"c26-rand-{i}")
        flat = i % 3 == 2
        x, sh = real_shape(s, rng, "ell", degenerate=0.45 if flat else 0, sc=rng.choice(RSC + ((Fr(1, 50), Fr(50)) if not flat else ())), far=True)
        isflat = any(h == 0 for h in sh.he)
        neg = "-1/1000000"
        for _ in range(3):
            p = full_par(s, rng, sh, stretch=rng.choice([Fr(1), Fr(1), Fr(99, 100), Fr(3, 2), Fr(3)]))
            s.add("ell.can", of=x, par=p, **({"eps": neg} if isflat else {"eps": rng.choice(["0", neg, "1/1000", "1/10"])} if rng.random() < 0.5 else {}))
        # mean squared normalised radius just below and just above one
        ix = [j for j in range(3) if sh.he[j]]
        for f in (Fr(999, 1000), Fr(1001, 1000), rng.choice([Fr(101, 100), Fr(6, 5)])):
            pm = []
            for j in ix:
                for sg in (1, -1):
                    y = [Fr(0)] * 3
                    y[j] = sg * f * sh.he[j]
                    pm.append(["1", SV(sh.world(y))])
            if len(ix) == 3 or rng.random() < 0.9:
                p = s.add("par.pm", new=True, pm=pm)
                s.add("ell.can", of=x, par=p, **({"eps": neg} if isflat else {}))
                if not isflat:
                    s.add("ell.can", of=x, par=p, eps=rng.choice(["1/1000", "1/100", "1/10", "1"]))
        # solid and shell, of this ellipsoid and of slightly different ones
        if not isflat or rng.random() < 0.5:
            for f in (Fr(1), Fr(99, 100), Fr(101, 100), Fr(13, 10)):
                if rng.random() < 0.6:
                    y = s.add("shape.new", new=True, how="ell", he=SV([h * f for h in sh.he]), c=SV(sh.c), R=SV(sh.R))
                    sphere = len(set(sh.he)) == 1
                    for how in (("uniform", "hollow") if sphere else ("uniform",)):
                        p = s.add("dens", new=True, of=y, how=how, m=S(pos(rng)))
                        s.add("ell.can", of=x, par=p, **({"eps": neg} if isflat else {}))
        if isflat:
            # mass off the plane
            j = rng.choice([j for j in range(3) if not sh.he[j]])
            off = [rng.choice([Fr(1, 10), Fr(1, 100), Fr(-1, 5)]) * sh.R[r][j] for r in range(3)]
            p = full_par(s, rng, sh, off=off, stretch=Fr(1, 2))
            s.add("ell.can", of=x, par=p, eps=neg)
            pm = [["1", SV(sh.world([h / 2 for h in sh.he]))], ["1", SV(add(sh.world([-h / 2 for h in sh.he]), off))], ["2", SV(sub(sh.c, off))]]
            s.add("ell.can", of=x, par=s.add("par.pm", new=True, pm=pm), eps=neg)
        else:
            # inconsistent parameters whose trace is small
            pm = [[S(rng.choice([1, 2])), SV(inner(rng, sh, Fr(1, 3)))] for _ in range(3)] + [["-1/4", SV(inner(rng, sh, Fr(1)))]]
            s.add("ell.can", of=x, par=s.add("par.pm", new=True, pm=pm))
            s.add("ell.can", of=x, par=s.add("par.pm", new=True, pm=[["1", SV(inner(rng, sh))], ["2", SV(inner(rng, sh))]]), eps=rng.choice(["1/1000", neg]))
        out.append(s.done())
    return out


def gen_c27(rng, tier, scns):
    big = tier == "thorough"
    out = []
    for i in range(1500 if big else 90):
        s = Ses(f"c27-rand-{i}")
        n = rng.choice([1, 2, 2, 2, 3, 4])
        sc = rng.choice([Fr(1), Fr(1), Fr(1, 5)])
        q0 = quat(rng, rng.choice(["gen", "quarter", "id"]))
        shs, xs = [], []
        for _ in range(n):
            k = rng.choice(["box", "cyl", "ell", "ell", "poly"])
            x, sh = real_shape(s, rng, k, sc=sc, degenerate=0.3 if k == "ell" and rng.random() < 0.2 else 0)
            if rng.random() < 0.6 and k in ("box", "cyl"):
                # a common frame, so that the bounds along its axes are exact for the whole body
                c = [Fr(rng.randint(-4, 4), 3) * sc for _ in range(3)]
                e = {"q": q0, "c": SV(c)}
                R = quat_mat(q0)
                if k == "box":
                    x = s.add("shape.new", new=True, how="box", he=SV(sh.he), **e)
                    sh = Shp("box", c, R, he=sh.he)
                else:
                    x = s.add("shape.new", new=True, how="cyl", L=S(sh.L), r=S(sh.r), **e)
                    sh = Shp("cyl", c, R, L=sh.L, r=sh.r)
            if shs and rng.random() < 0.25 and shs[0].k in ("box", "ell", "cyl"):
                # a small shape near the first one: inside its bounding boxes, but possibly outside itself, or nested in it
                big0 = shs[0]
                h0 = big0.he or [big0.r, big0.r, big0.L / 2]
                y = [rng.choice([1, -1]) * h * rng.choice([Fr(1, 3), Fr(4, 5), Fr(9, 10)]) for h in h0]
                c = big0.world(y)
                he = [max(h, sc / 20) / rng.choice([12, 15]) for h in h0]
                he = [max(he) if max(he) > 6 * h else h for h in he]
                k = rng.choice(["box", "ell"])
                x = s.add("shape.new", new=True, how=k, he=SV(he), c=SV(c), R=SV(big0.R))
                sh = Shp(k, c, big0.R, he=he)
            if shs and rng.random() < 0.3:
                # apart from the others, leaving a gap
                t = [x * sc * rng.choice([3, 4]) for x in unit(rng, 3)]
                x = s.add("shape.transform", new=True, of=x, t=SV(t))
                sh = sh.moved(None, t)
            xs.append(x)
            shs.append(sh)
        b = s.add("body.new", new=True, shapes=xs)
        if n == 2 and rng.random() < 0.3:
            b1 = s.add("body.new", new=True, shapes=xs[:1])
            b2 = s.add("body.new", new=True, shapes=xs[1:])
            b = s.add("body.add", new=True, x=b1, y=b2)
        if rng.random() < 0.4:
            e = rigid(rng, sc / 4, "both")
            b = s.add("body.transform", new=True, of=b, **e)
            R, t = quat_mat(e["q"]), [Fr(x) for x in e["t"]]
            shs = [sh.moved(R, t) for sh in shs]
        eps = rng.choice([Fr(0), Fr(0), Fr(0), Fr(1, 100), Fr(1, 1000)])
        fmt = rng.choice(["mat", "vec", "mat", "psd"])
        qs = query_c25(rng, shs, "body", fmt, eps, body=True)
        if eps == 0:
            for _ in range(2 if n > 1 else 0):
                # the spread about a point between two shapes
                p, q = (centre(sh) for sh in rng.sample(shs, 2))
                a = sub(p, q) if rng.random() < 0.6 else [Fr(int(j == rng.choice([0, 1, 2]))) for j in range(3)]
                if any(a):
                    qs.append({"q": "secmin", "a": SV(a), "p": SV([(u + v) / 2 for u, v in zip(p, q)])})
            for sh in shs:         # all mass in one of the shapes, and any split
                qs.append(dist(rng, [sh]))
            qs += [dist(rng, shs) for _ in range(3)]
        else:
            qs += [dist(rng, shs, pmasses(rng, shs, 10, Fr(1))) for _ in range(2)]
            for sh in shs:
                qs.append(dist(rng, [sh], pmasses(rng, [sh], 8, Fr(1))))
        e = {"eps": S(eps)} if eps else {}
        if rng.random() < 0.04:
            e["d"] = 3
        s.add("real.query", of=b, fam="body", fmt=fmt, qs=qs, **e)
        out.append(s.done())
    return out


MC = lambda k, mp, ns: (f"CONSTANTS K = {k} MP = {mp} NS = {ns} Emit = TRUE\nINIT Init\nNEXT Next\n"
                        "INVARIANTS Bounded Attained VertexDominates Emitted\nCHECK_DEADLOCK FALSE\n")


def models(tier):
    return [("MC_Real", MC(2, 2, 7) if tier == "quick" else MC(2, 3, 7))]


def no_tiny(gen):
    """Without tiny rotation angles: the facets cdd computes are then badly scaled for the solver."""
    def g(rng, tier, scns):
        NO_TINY[0] = True
        try:
            return gen(rng, tier, scns)
        finally:
            NO_TINY[0] = False
    return g


def small(tier):
    return [("MC_Real", MC(2, 1, 7) if tier == "quick" else MC(2, 3, 7))]


PROPS = {"C24": {"models": models, "gen": no_tiny(gen_c24)}, "C25": {"models": small, "gen": no_tiny(gen_c25)},
         "C26": {"models": models, "gen": gen_c26}, "C27": {"models": small, "gen": no_tiny(gen_c27)}}
