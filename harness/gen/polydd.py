"""Scenarios for double description and intersection: C16 and C17."""
from .common import *
from .shapes import new_shape, poly_vertices, move_args, det, moved, Shp, I3

KS = {"K1": 1}


def sperm(rng, d):
    """A signed permutation matrix with determinant 1: an exact rotation of the lattice."""
    while True:
        p = list(range(d))
        rng.shuffle(p)
        M = [[Fr(rng.choice([1, -1])) if p[i] == j else Fr(0) for j in range(d)] for i in range(d)]
        if det(M) == 1:
            return M


def lat_move(rng, d):
    e = {}
    k = rng.choice(["both", "both", "rot", "trans", "none"])
    if k in ("both", "rot"):
        e["R"] = SV(sperm(rng, d))
    if k in ("both", "trans"):
        e["t"] = SV([Fr(rng.randint(-4, 4), rng.choice([1, 2])) for _ in range(d)])
    return e


def ipts(rng, n, d, k=2):
    return [[Fr(rng.randint(-k, k)) for _ in range(d)] for _ in range(n)]


def rand_span(rng, d):
    e = {"d": d}
    kind = rng.choice(["pts", "pts", "pts", "mixed", "mixed", "cone", "cone", "line", "flat", "single", "apex"])
    nz = lambda n: [r for r in ipts(rng, n, d) if any(r)] or [[Fr(1)] + [Fr(0)] * (d - 1)]
    if kind == "pts":
        e["V"] = SV(ipts(rng, rng.randint(1, 7), d))
    elif kind == "flat":
        base, u = ipts(rng, 1, d)[0], nz(2)
        e["V"] = SV([add(base, [a * x + b * y for x, y in zip(u[0], u[-1])]) for a, b in
                     [(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(rng.randint(2, 5))]])
    elif kind == "mixed":
        e["V"] = SV(ipts(rng, rng.randint(1, 5), d))
        e["R"] = SV(nz(rng.randint(1, 3)))
    elif kind == "cone":
        e["R"] = SV(nz(rng.randint(1, 4)))
        if rng.random() < 0.3:
            e["V"] = SV([[Fr(0)] * d])
    elif kind == "apex":
        v = ipts(rng, 1, d)
        e["V"] = SV(v * rng.randint(1, 2))
        e["R"] = SV(nz(rng.randint(1, 4)))
    elif kind == "line":
        if rng.random() < 0.7:
            e["V"] = SV(ipts(rng, rng.randint(1, 3), d))
        e["L"] = SV(nz(1))
        if rng.random() < 0.5:
            e["R"] = SV(nz(rng.randint(1, 2)))
    else:
        e["V"] = SV(ipts(rng, 1, d))
    for k in ("R", "L"):
        if k in e and rng.random() < 0.5:
            # directions of any length
            e[k] = [SV([Fr(x) * f for x in r]) for r in e[k] for f in [rng.choice([Fr(1, 2), Fr(1, 10), Fr(1, 5), Fr(7), Fr(1, 1000), Fr(1)])]]
    if rng.random() < 0.25:
        # mentioned twice
        k = rng.choice([x for x in ("V", "R") if x in e] or ["L"])
        if k in e:
            e[k] = e[k] + [rng.choice(e[k])]
    if rng.random() < 0.15 and "V" in e:
        e["R"] = e.get("R", []) + [["0"] * d]
    if rng.random() < 0.3:
        e["ty"] = rng.choice(["int", "list", "F", "view"])
    return e


def rand_face(rng, d):
    e = {"d": d}
    kind = rng.choice(["around", "around", "around", "cut", "cone", "eq", "eq", "eqonly", "box", "few"])
    nz = lambda n: [r for r in ipts(rng, n, d) if any(r)] or [[Fr(1)] + [Fr(0)] * (d - 1)]
    box = [[Fr(sg if i == j else 0) for j in range(d)] for i in range(d) for sg in (1, -1)]
    if kind == "around":
        A = nz(rng.randint(d + 1, d + 4))
        b = [Fr(rng.randint(0, 4)) for _ in A]
    elif kind == "cut":
        A = box + nz(rng.randint(1, 3))
        b = [Fr(2)] * len(box) + [Fr(rng.randint(-5, 3)) for _ in A[len(box):]]
    elif kind == "cone":
        A = nz(rng.randint(1, 4))
        b = [Fr(0)] * len(A)
    elif kind == "box":
        A, b = box, [Fr(rng.randint(0, 3)) for _ in box]
    elif kind == "few":
        A = nz(rng.randint(1, 2))
        b = [Fr(rng.randint(-2, 2)) for _ in A]
    elif kind == "eqonly":
        A, b = [], []
    else:
        A = box + nz(rng.randint(0, 2))
        b = [Fr(2)] * len(box) + [Fr(rng.randint(0, 3)) for _ in A[len(box):]]
    if A and rng.random() < 0.35:
        # rows of any positive scale
        fs = [rng.choice([Fr(1, 2), Fr(1, 10), Fr(3), Fr(40), Fr(1)]) for _ in A]
        A, b = [[f * x for x in r] for f, r in zip(fs, A)], [f * x for f, x in zip(fs, b)]
    e.update(A=SV(A), b=SV(b))
    if kind in ("eq", "eqonly"):
        Ae = nz(rng.randint(1, 2))
        e.update(Ae=SV(Ae), be=SV([Fr(rng.randint(-1, 2)) for _ in Ae]))
    if rng.random() < 0.3:
        # redundant and repeated faces
        if A:
            i = rng.randrange(len(A))
            f = rng.choice([1, 2])
            e["A"] = e["A"] + [SV([f * x for x in A[i]])]
            e["b"] = e["b"] + [S(f * b[i] + rng.choice([0, 0, 1]))]
    return e


def explore(s, rng, x, d, rep):
    """Conversions, canonical forms and moves of a form, each read back."""
    s.add("pf.read", of=x)
    steps = ["canon", "convert", "convert_canon", "move", "move_convert", "back", "poly"]
    rng.shuffle(steps)
    conv = lambda y, r: s.add("pf.toface" if r == "span" else "pf.tospan", new=True, of=y)
    for st in steps[:4]:
        if st == "canon":
            s.add("pf.read", of=s.add("pf.canon", new=True, of=x), canon=True)
        elif st == "convert":
            s.add("pf.read", of=conv(x, rep))
        elif st == "convert_canon":
            s.add("pf.read", of=s.add("pf.canon", new=True, of=conv(x, rep)), canon=True)
        elif st == "move":
            y = s.add("pf.move", new=True, of=x, **lat_move(rng, d))
            s.add("pf.read", of=y)
        elif st == "move_convert":
            y = s.add("pf.move", new=True, of=x, **lat_move(rng, d))
            z = conv(y, rep)
            s.add("pf.read", of=z)
            s.add("pf.read", of=s.add("pf.move", new=True, of=z, **lat_move(rng, d)))
        elif st == "back":
            y = conv(x, rep)
            z = conv(y, "face" if rep == "span" else "span")
            s.add("pf.read", of=z)
        elif st == "poly":
            pass
    s.add("pf.read", of=x)


def nonempty_face(e):
    """Exact test (for the generator): is {A x <= b, Ae x = be} non-empty?  By Fourier-Motzkin elimination."""
    rows = [([Fr(v) for v in a], Fr(b)) for a, b in zip(e["A"], e["b"])]
    for a, b in zip(e.get("Ae", []), e.get("be", [])):
        a, b = [Fr(v) for v in a], Fr(b)
        rows += [(a, b), ([-v for v in a], -b)]
    for j in range(e["d"]):
        pos_, neg_, zero = [r for r in rows if r[0][j] > 0], [r for r in rows if r[0][j] < 0], [r for r in rows if r[0][j] == 0]
        new = {}
        for p in pos_:
            for n in neg_:
                a = [x / p[0][j] - y / n[0][j] for x, y in zip(p[0], n[0])]
                b = p[1] / p[0][j] - n[1] / n[0][j]
                new[tuple(a)] = min(b, new.get(tuple(a), b))
        rows = zero + [(list(a), b) for a, b in new.items()]
    return all(b >= 0 for _, b in rows)


def gen_c16(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = [x for x in scns.get("MC_Dd", []) if not x["Q"]]
    rng.shuffle(al)
    for i, x in enumerate(al[:4000 if big else 90]):
        s = Ses(f"c16-model-{i}")
        e = {"d": 2}
        if x["P"]:
            e["V"] = x["P"]
        if x["R"]:
            e["R"] = x["R"]
        y = s.add("pf.span", new=True, **e)
        explore(s, rng, y, 2, "span")
        s.add("poly.from", new=True, of=y)
        out.append(s.done())
    for i in range(5000 if big else 330):
        s = Ses(f"c16-span-{i}")
        d = rng.choice([1, 2, 2, 3, 3, 3])
        x = s.add("pf.span", new=True, **rand_span(rng, d))
        explore(s, rng, x, d, "span")
        if rng.random() < 0.5:
            p = s.add("poly.from", new=True, of=rng.choice([x, s.add("pf.canon", new=True, of=x), s.add("pf.toface", new=True, of=x)]))
        out.append(s.done())
    for i in range(5000 if big else 330):
        s = Ses(f"c16-face-{i}")
        d = rng.choice([1, 2, 2, 3, 3, 3])
        e = rand_face(rng, d)
        x = s.add("pf.face", new=True, **e)
        if nonempty_face(e):
            explore(s, rng, x, d, "face")
            if rng.random() < 0.5:
                s.add("poly.from", new=True, of=rng.choice([x, s.add("pf.canon", new=True, of=x), s.add("pf.tospan", new=True, of=x)]))
        else:
            s.add("pf.read", of=x)
            s.add("pf.read", of=s.add("pf.tospan", new=True, of=x))
            s.add("pf.read", of=s.add("pf.move", new=True, of=x, **lat_move(rng, d)))
        if rng.random() < 0.3:
            e2 = rand_face(rng, d)
            y = s.add("pf.face", new=True, **e2)
            z = s.add("pf.stack", new=True, x=x, y=y)
            s.add("pf.read", of=z)
            s.add("pf.read", of=s.add("pf.tospan", new=True, of=z))
        out.append(s.done())
    for i in range(3000 if big else 200):
        s = Ses(f"c16-hull-{i}")
        for _ in range(2):
            d = rng.choice([1, 2, 2, 3, 3, 3, 4])
            n = rng.choice([1, 2, 2, 3]) if rng.random() < 0.2 else rng.randint(1, 9 if d < 4 else 7)
            P = ipts(rng, n, d, rng.choice([1, 2, 3]))
            if n <= 3 and rng.random() < 0.4:
                P = [rng.choice(P[:2]) for _ in range(n)]       # few points, repeated
            if rng.random() < 0.4 and n > 2:
                # midpoints and repetitions are not extreme
                a, b = rng.sample(P, 2)
                P += [[(x + y) / 2 for x, y in zip(a, b)], list(a)]
                rng.shuffle(P)
            sc = rng.choice([1, 1, 1, 10, Fr(1, 8)])
            P = [[x * sc for x in p] for p in P]
            if rng.random() < 0.3:
                R, t = rot_n(rng, d), vec(rng, d)
                if d > 1:
                    P = [add(matvec(R, p), t) for p in P]
            s.add("pf.hull", pts=SV(P), ty=rng.choice(["f", "f", "F", "view", "int"]))
        out.append(s.done())
    for i in range(500 if big else 45):
        # polyhedra given by halfspaces, some of them redundant, with and without pruning
        s = Ses(f"c16-halfspaces-{i}")
        d = rng.choice([2, 3, 3])
        A = [[Fr(sg if a == c else 0) for c in range(d)] for a in range(d) for sg in (1, -1)]
        b = [Fr(rng.randint(0, 3)) if rng.random() < 0.9 else Fr(0) for _ in A]
        for _ in range(rng.randint(0, 4)):
            r = ivec(rng, d, 2)
            if any(r):
                A.append(r)
                b.append(Fr(rng.randint(0, 6)))
        if rng.random() < 0.4:
            j = rng.randrange(len(A))
            f = rng.choice([Fr(1), Fr(2), Fr(1, 3)])
            A.append([f * v for v in A[j]])
            b.append(f * b[j] + rng.choice([0, 0, 1]))
        o = list(range(len(A)))
        rng.shuffle(o)
        x = s.add("shape.new", new=True, how="halfspaces", A=SV([A[j] for j in o]), b=SV([b[j] for j in o]),
                  **({"prune": rng.random() < 0.7} if rng.random() < 0.8 else {}))
        s.add("shape.read", of=x)
        s.add("shape.contains", of=x, pts=SV([[v / 2 for v in ivec(rng, d, 5)] for _ in range(8)]))
        e, R, t = move_args(rng, d, Fr(1))
        y = s.add("shape.transform", new=True, of=x, **e)
        s.add("shape.read", of=y)
        out.append(s.done())
    for i in range(2000 if big else 110):
        # polyhedra built through either description, pruned or not
        s = Ses(f"c16-poly-{i}")
        d = rng.choice([2, 3, 3])
        V = poly_vertices(rng, d, rng.choice([1, 1, 2, Fr(1, 2)]))
        W = [list(v) for v in V]
        for _ in range(rng.randint(0, 3)):
            k = rng.sample(V, 2)
            W.append([(x + y) / 2 for x, y in zip(*k)])
        rng.shuffle(W)
        x = s.add("shape.new", new=True, how="poly", V=SV(W), prune=True)
        s.add("shape.read", of=x)
        via = rng.choice(["faces", "halfspaces", "span", "both"])
        y = s.add("shape.new", new=True, how="rebuild", of=x, via=via)
        s.add("shape.read", of=y)
        e, R, t = move_args(rng, d, Fr(1))
        z = s.add("shape.transform", new=True, of=y, **e)
        s.add("shape.read", of=z)
        out.append(s.done())
    return out


# ------------------------------------------------------------------ intersections
def prism3(rng):
    return poly_vertices(rng, 3, 1)


def lattice_poly(s, rng, d):
    """A polyhedron with small integer vertices (possibly flat, or a single point); returns its id."""
    k = rng.choice(["random", "random", "random", "box", "flat", "single", "segment", "named"]) if d == 3 else rng.choice(["random", "random", "segment", "single"])
    if k == "box":
        he = [Fr(rng.randint(1, 4), 2) if rng.random() < 0.9 else Fr(0) for _ in range(3)]
        e = {"c": SV([Fr(rng.randint(-4, 4), 2) for _ in range(3)])}
        if rng.random() < 0.4:
            e["R"] = SV(sperm(rng, 3))
        return s.add("shape.new", new=True, how="box", he=SV(he), **e)
    n = {"random": rng.randint(d + 1, 7 if d < 4 else 5), "flat": rng.randint(3, 4), "single": 1, "segment": 2, "named": 0}[k]
    if k == "flat":
        a, u, v = ipts(rng, 3, d)
        V = [add(a, [p * x + q * y for x, y in zip(u, v)]) for p, q in ((0, 0), (1, 0), (0, 1), (1, 1))[:n]]
    elif k == "named":
        V = [[Fr(round(x)) for x in v] for v in rng.choice([prism3(rng), prism3(rng)])]
        V = [v for v in V]
        c = ipts(rng, 1, d)[0]
        V = [add(v, c) for v in V]
    else:
        V = ipts(rng, n, d)
    return s.add("shape.new", new=True, how="poly", V=SV(V), prune=True)


def touching_boxes(s, rng):
    """Two boxes sharing exactly a face, an edge or a vertex, or separated / overlapping by a clear amount."""
    h1, h2 = [Fr(rng.randint(1, 4), 2) for _ in range(3)], [Fr(rng.randint(1, 4), 2) for _ in range(3)]
    n = rng.choice([1, 2, 3])
    ax = rng.sample(range(3), n)
    c1 = ipts(rng, 1, 3)[0]
    c2 = list(c1)
    for a in range(3):
        if a in ax:
            c2[a] += rng.choice([1, -1]) * (h1[a] + h2[a] + rng.choice([0, 0, 0, 0, Fr(1, 2), Fr(-1, 2)]))
        else:
            c2[a] += Fr(rng.randint(-1, 1), 2)
    x = s.add("shape.new", new=True, how="box", he=SV(h1), c=SV(c1))
    y = s.add("shape.new", new=True, how="box", he=SV(h2), c=SV(c2))
    return x, y


def meet(s, x, y, **kw):
    return s.add("poly.intersect", new=True, x=x, y=y, **kw)


def gen_c17(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = [x for x in scns.get("MC_Dd", []) if x["Q"]]
    rng.shuffle(al)
    for i, x in enumerate(al[:5000 if big else 200]):
        s = Ses(f"c17-model-{i}")
        a = s.add("shape.new", new=True, how="poly", V=x["P"], prune=True)
        b = s.add("shape.new", new=True, how="poly", V=x["Q"], prune=True)
        meet(s, a, b, exact=True)
        meet(s, b, a, exact=True)
        out.append(s.done())
    for i in range(5000 if big else 500):
        s = Ses(f"c17-lat-{i}")
        d = rng.choice([1, 2, 2, 3, 3, 3, 3]) if i % 20 else 4
        if d == 3 and rng.random() < 0.25:
            a, b = touching_boxes(s, rng)
        else:
            a, b = lattice_poly(s, rng, d), lattice_poly(s, rng, d)
        x = meet(s, a, b, exact=True)
        k = rng.choice(["comm", "idem", "assoc", "move", "sub"])
        if k == "comm":
            meet(s, b, a, exact=True)
        elif k == "idem":
            meet(s, a, a, exact=True)
            meet(s, x, a, exact=True)
            meet(s, x, x, exact=True)
        elif k == "assoc" and d < 4:
            c = lattice_poly(s, rng, d)
            y = meet(s, b, c, exact=True)
            meet(s, x, c, exact=True)
            meet(s, a, y, exact=True)
        elif k == "move":
            m = lat_move(rng, d)
            a2, b2 = (s.add("shape.transform", new=True, of=z, **m) for z in (a, b))
            meet(s, a2, b2, exact=True)
        out.append(s.done())
    out.append(known_tiny_rotation())
    # arbitrary poses and sizes (nearly parallel faces are judged by the known finding above)
    NO_TINY[0] = True
    for i in range(3000 if big else 260):
        s = Ses(f"c17-gen-{i}")
        sc = rng.choice([Fr(1), Fr(1), Fr(1), Fr(1, 10), Fr(30)])
        d = rng.choice([2, 3, 3, 3])
        mk = lambda: new_shape(s, rng, rng.choice(["poly", "box"]) if d == 3 else "poly", scale=sc, d=d)
        a, sa = mk()
        if rng.random() < 0.4:
            # the same shape moved a little: large overlap, or by its own size
            t = vec(rng, d, sc * rng.choice([Fr(1, 4), Fr(1, 2), Fr(1, 20)]))
            e = {"t": SV(t)}
            if rng.random() < 0.5:
                if d == 3:
                    e["q"] = quat(rng)
                else:
                    e["R"] = SV(rot_n(rng, d))
            b = s.add("shape.transform", new=True, of=a, **e)
        else:
            b, _ = mk()
            if rng.random() < 0.5:
                # bring it close: translate the second onto a vertex of the first
                ca, cb = sa.centre(), _.centre()
                b = s.add("shape.transform", new=True, of=b, t=SV(add(sub(ca, cb), vec(rng, d, sc / 3))))
        x = meet(s, a, b)
        if rng.random() < 0.4:
            meet(s, b, a)
        if rng.random() < 0.3:
            meet(s, a, a)
        out.append(s.done())
    NO_TINY[0] = False
    return out


def known_tiny_rotation():
    """Two copies of a polyhedron turned against each other by a milliradian: cdd's floating-point arithmetic loses
    a vertex of the intersection by far more than rounding (listed in known_findings.txt)."""
    import random

    rng = random.Random(311)
    V = poly_vertices(rng, 3, 1)
    q, t, q2 = quat(rng, "tiny"), vec(rng, 3, Fr(1, 4)), quat(rng, "tiny")
    s = Ses("c17-known-tiny-rotation")
    R = quat_mat(q)
    a = s.add("shape.new", new=True, how="poly", V=SV([matvec(R, v) for v in V]))
    b = s.add("shape.transform", new=True, of=a, q=q2, t=SV(t))
    meet(s, a, b)
    return s.done()


MC = lambda k, p, r, q: (f"CONSTANTS K = {k} MP = {p} MR = {r} MQ = {q} Emit = TRUE\nINIT Init\nNEXT Next\n"
                         "INVARIANTS SpanAgrees RoundTrip MeetExact MoveExact Emitted\nCHECK_DEADLOCK FALSE\n")
MCP = "CONSTANTS D = 2 K = 2 M = 3\nINIT Init\nNEXT Next\nINVARIANTS HullAgrees RoundTrip\nCHECK_DEADLOCK FALSE\n"


def models16(tier):
    return [("MC_Dd", MC(1, 3, 2, 0) if tier == "quick" else MC(2, 3, 2, 0)), ("MC_Poly", MCP if tier == "quick" else MCP.replace("M = 3", "M = 4"))]


def models17(tier):
    return [("MC_Dd", MC(1, 4, 0, 3) if tier == "quick" else MC(2, 3, 0, 3))]


PROPS = {"C16": {"models": models16, "gen": gen_c16}, "C17": {"models": models17, "gen": gen_c17}}
