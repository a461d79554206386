"""Scenarios for shapes: C08 - C12 and C30."""
from .common import *
from .inertia import new_par

I3 = [[Fr(int(i == j)) for j in range(3)] for i in range(3)]


def unit(rng, n):
    """A rational point on the unit sphere of R^n."""
    if n == 1:
        return [Fr(rng.choice([1, -1]))]
    t = [Fr(rng.randint(-6, 6), rng.choice([1, 2, 3, 5])) for _ in range(n - 1)]
    q = sum(x * x for x in t)
    v = [2 * x / (q + 1) for x in t] + [(q - 1) / (q + 1)]
    rng.shuffle(v)
    return v


class Shp:
    """The generator's own description of a shape, used only to pick interesting points."""

    def __init__(self, k, c=None, R=None, he=None, L=None, r=None, V=None, d=3):
        self.k, self.d = k, d
        self.c = c or [Fr(0)] * d
        self.R = R or [[Fr(int(i == j)) for j in range(d)] for i in range(d)]
        self.he, self.L, self.r, self.V = he, L, r, V

    def moved(self, R, t):
        R = R or [[Fr(int(i == j)) for j in range(self.d)] for i in range(self.d)]
        t = t or [Fr(0)] * self.d
        if self.k == "poly":
            return Shp("poly", V=[add(matvec(R, v), t) for v in self.V], d=self.d)
        return Shp(self.k, add(matvec(R, self.c), t), matmul(R, self.R), self.he, self.L, self.r, None, self.d)

    def size(self):
        if self.k == "poly":
            return max(max(abs(x) for x in v) for v in self.V) or Fr(1)
        return max(list(self.he or []) + [self.L or 0, self.r or 0]) or Fr(1)

    def world(self, y):
        return add(matvec(self.R, y), self.c)

    def boundary(self, rng):
        """A boundary point and an outward direction, both in world coordinates."""
        if self.k == "box":
            y = [x * Fr(rng.randint(-4, 4), 4) for x in self.he]
            i = rng.randrange(3)
            s = rng.choice([1, -1])
            y[i] = s * self.he[i]
            n = [Fr(0)] * 3
            n[i] = Fr(s)
        elif self.k == "ell":
            u = unit(rng, self.d)
            y = [a * b for a, b in zip(self.he, u)]
            flat = [i for i in range(self.d) if self.he[i] == 0]
            if flat and rng.random() < 0.6:
                y = [Fr(rng.randint(0, 4), 4) * x for x in y]
                n = [Fr(0)] * self.d
                n[rng.choice(flat)] = Fr(rng.choice([1, -1]))
            else:
                n = [Fr(0) if h == 0 else x / h * min(x for x in self.he if x) for x, h in zip(u, self.he)]
                if not any(n):
                    n = u
        elif self.k == "cyl":
            u = unit(rng, 2)
            if rng.random() < 0.5:
                y = [self.r * u[0], self.r * u[1], self.L * Fr(rng.randint(-4, 4), 8)]
                n = [u[0], u[1], Fr(0)]
            else:
                a, s = Fr(rng.randint(0, 4), 4), rng.choice([1, -1])
                y = [a * self.r * u[0], a * self.r * u[1], s * self.L / 2]
                n = [Fr(0), Fr(0), Fr(s)]
        elif self.k == "cap":
            if rng.random() < 0.5:
                u = unit(rng, 2)
                y = [self.r * u[0], self.r * u[1], self.L * Fr(rng.randint(-4, 4), 8)]
                n = [u[0], u[1], Fr(0)]
            else:
                u = unit(rng, 3)
                s = 1 if u[2] >= 0 else -1
                y = [self.r * u[0], self.r * u[1], self.r * u[2] + s * self.L / 2]
                n = u
        else:
            k = rng.randint(1, len(self.V))
            vs = rng.sample(self.V, k)
            w = [rng.randint(1, 3) for _ in vs]
            p = [sum(a * v[i] for a, v in zip(w, vs)) / sum(w) for i in range(self.d)]
            cen = [sum(v[i] for v in self.V) / len(self.V) for i in range(self.d)]
            n = sub(p, cen)
            if not any(n):
                n = unit(rng, self.d)
            m = max(abs(x) for x in n)
            return p, [x / m for x in n]
        return self.world(y), matvec(self.R, n)

    def centre(self):
        if self.k == "poly":
            return [sum(v[i] for v in self.V) / len(self.V) for i in range(self.d)]
        return self.c

    def points(self, rng, n, tol=None):
        """Points inside, on, just inside / outside and far outside."""
        sz, res = self.size(), []
        deltas = [Fr(1, 10), Fr(1, 1000), Fr(1, 10**5), Fr(1, 10**6), Fr(1, 10**7)]
        if tol:
            deltas += [Fr(tol) / 10, Fr(tol) / 50, Fr(tol) * 10, Fr(tol) * 100, Fr(tol) / 4, Fr(tol) * 4]
        for _ in range(n):
            p, nn = self.boundary(rng)
            mode = rng.choice(["on", "scale_in", "out", "out", "out", "in", "in", "far", "tolabs", "zero"])
            c = self.centre()
            if mode == "on":
                q = p
            elif mode == "scale_in":
                a = Fr(rng.randint(0, 19), 20)
                q = add(c, [a * x for x in sub(p, c)])
            elif mode in ("out", "in"):
                dl = rng.choice(deltas) * sz * (1 if mode == "out" else -1)
                q = add(p, [dl * x for x in nn])
            elif mode == "tolabs":
                dl = rng.choice(deltas[5:] or deltas)
                q = add(p, [dl * x for x in nn])
            elif mode == "far":
                a = Fr(rng.choice([3, 2, 100, 5]), 2)
                q = add(c, [a * x for x in sub(p, c)])
            else:
                q = [Fr(0)] * self.d
            res.append(q)
        return res


def new_shape(s, rng, k=None, scale=None, degenerate=0.0, d=3, posed=True, ty=None):
    """Construct a shape by an event; returns (id, Shp)."""
    k = k or rng.choice(["box", "ell", "cyl", "cap", "poly"])
    sc = scale or rng.choice(SCALES)
    e, c, R = {}, None, None
    if posed and rng.random() < 0.85:
        c = vec(rng, d, rng.choice([sc, sc, Fr(1)]))
        e["c"] = SV(c)
    if posed and rng.random() < 0.85:
        if d == 3:
            q = quat(rng)
            R = quat_mat(q)
            e["q"] = q
        else:
            R = rot_n(rng, d)
            e["R"] = SV(R)
    if ty:
        e["ty"] = ty
    size = lambda: Fr(0) if rng.random() < degenerate else pos(rng, sc)
    if k in ("box", "ell"):
        he = [size() for _ in range(d)]
        if rng.random() < 0.15:
            he = [he[0]] * d
        # a half extent below the library's resolution is a flat direction too
        given = [Fr(1, 10 ** 10) if k == "ell" and sc >= Fr(1, 4) and x == 0 and any(he) and rng.random() < 0.3 else x for x in he]
        i = s.add("shape.new", new=True, how=k, he=SV(given), **e)
        return i, Shp(k, c, R, he=he, d=d)
    if k in ("cyl", "cap"):
        L, r = size(), size()
        i = s.add("shape.new", new=True, how=k, L=S(L), r=S(r), **e)
        return i, Shp(k, c, R, L=L, r=r)
    V = poly_vertices(rng, d, sc)
    if R or c:
        V = [add(matvec(R, v) if R else v, c or [Fr(0)] * d) for v in V]
    i = s.add("shape.new", new=True, how="poly", V=SV(V), **({"ty": ty} if ty else {}))
    return i, Shp("poly", V=V, d=d)


def poly_vertices(rng, d=3, sc=Fr(1), flat=0.0):
    """Vertices of a convex polyhedron in R^d: simplices, prisms, octahedra, wedges (all extreme)."""
    sc = Fr(sc)
    if d == 1:
        a = num(rng, sc)
        return [[a], [a + pos(rng, sc)]]
    kind = rng.choice(["simplex", "cross", "pyramid", "prism", "random"])
    if d > 3:
        kind = rng.choice(["simplex", "cross"])
    if d == 2:
        base = rng.choice([[(0, 0), (3, 0), (0, 2)], [(1, 1), (-1, 1), (-1, -1), (1, -1)], [(2, 0), (1, 2), (-1, 2), (-2, 0), (0, -3)],
                           [(0, 0), (4, 1), (5, 3), (2, 5), (-1, 2)]])
        return [[Fr(x) * sc, Fr(y) * sc] for x, y in base]
    if kind == "simplex":
        while True:
            V = [[Fr(rng.randint(-3, 3)) * sc for _ in range(d)] for _ in range(d + 1)]
            M = [sub(v, V[0]) for v in V[1:]]
            if abs(det(M)) >= sc**d:
                return V
    if kind == "cross":
        e = [Fr(rng.randint(1, 4)) * sc for _ in range(d)]
        c = [Fr(rng.randint(-3, 3)) * sc for _ in range(d)]
        return [[c[j] + (sg * e[i] if i == j else 0) for j in range(d)] for i in range(d) for sg in (1, -1)]
    if kind == "pyramid":
        base = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
        a = Fr(rng.randint(1, 3)) * sc
        return [[Fr(x) * a, Fr(y) * a, Fr(0)] for x, y in base] + [[Fr(rng.randint(-2, 2)) * sc, Fr(rng.randint(-2, 2)) * sc, Fr(rng.randint(1, 4)) * sc]]
    if kind == "prism":
        base = rng.choice([[(0, 0), (3, 0), (0, 2)], [(2, 0), (1, 2), (-1, 2), (-2, 0), (0, -3)]])
        h = Fr(rng.randint(1, 3)) * sc
        return [[Fr(x) * sc, Fr(y) * sc, z * h] for x, y in base for z in (0, 1)]
    # points on a sphere are all extreme
    V = []
    while len(V) < 7:
        u = [Fr(round(x * 12), 12) for x in unit(rng, d)]
        u = unit(rng, d)
        if u not in V:
            V.append(u)
    V = [[x * 2 * sc for x in v] for v in V]
    M = [sub(v, V[0]) for v in V[1:4]]
    if abs(det(M)) < Fr(1, 50) * sc**3:
        return poly_vertices(rng, d, sc)
    return V


def det(M):
    n = len(M)
    if n == 0:
        return Fr(1)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n) if M[0][j])


def move_args(rng, d, sc, small=False):
    """Rigid transform arguments in dimension d: event fields, exact R and t (None when omitted)."""
    k = rng.choice(["both", "both", "both", "rot", "trans", "none"])
    e, R, t = {}, None, None
    if k in ("both", "rot"):
        if d == 3:
            q = quat(rng, "speck" if small and not NO_TINY[0] and rng.random() < 0.12 else None)
            R = quat_mat(q)
            e["q"] = q
        else:
            R = rot_n(rng, d)
            e["R"] = SV(R)
    if k in ("both", "trans"):
        t = vec(rng, d, sc * (rng.choice(TINYMOVES) if small and rng.random() < 0.1 else 1))
        e["t"] = SV(t)
    return e, R, t


def moved(s, rng, i, sh, n=None, sc=None):
    """A chain of transforms of shape i."""
    for _ in range(rng.randint(1, 3) if n is None else n):
        if rng.random() < 0.3 and sh.k in ("box", "ell"):
            R = quat_mat(q := quat(rng)) if sh.d == 3 else rot_n(rng, sh.d)
            i = s.add("shape.rotc", new=True, of=i, **({"q": q} if sh.d == 3 else {"R": SV(R)}))
            sh = Shp(sh.k, sh.c, matmul(R, sh.R), he=sh.he, d=sh.d)
        else:
            e, R, t = move_args(rng, sh.d, sc or sh.size(), small=sh.k != "poly")
            i = s.add("shape.transform", new=True, of=i, **e)
            sh = sh.moved(R, t)
    return i, sh


TOLS = [None, None, "1/100000000", "1/1000000", "1/10000", "1/1000", "1/100", "1/10", "0"]


def ask(s, rng, i, sh, op="shape.contains", n=10, tol=None, ty=None):
    kw = {}
    if tol is not None:
        kw["tol"] = tol
    if ty:
        kw["ty"] = ty
    s.add(op, of=i, pts=SV(sh.points(rng, n, tol)), **kw)


def poly_dim(rng):
    return rng.choice([1, 2, 2, 3, 3, 3, 3, 4])


def ell_dim(rng):
    return rng.choice([1, 2, 2, 3, 3, 3, 4])


def scen(scns, rng, limit, tail, prefix, name="MC_Shapes"):
    res = []
    al = list(scns.get(name, []))
    rng.shuffle(al)
    for i, hist in enumerate(al[:limit]):
        ev = [dict(e) for e in hist]
        res.append({"name": f"{prefix}-model-{i}", "ev": ev + tail([e["id"] for e in ev if "id" in e])})
    return res


GRIDPTS = [["0", "0", "0"], ["1", "0", "0"], ["0", "1", "1"], ["2", "-1", "1"], ["-1", "2", "0"], ["1/2", "1/2", "-1/2"], ["3", "3", "3"], ["1", "1", "2"],
           ["-2", "1", "1/4"], ["0", "0", "3/2"], ["1", "-2", "1"], ["1/3", "1", "-1"]]


def exact_case(s, rng, op, kinds):
    """Exactly representable shape and points with a tolerance of zero: the boundary belongs to the closed set."""
    k = rng.choice(kinds)
    p2 = [Fr(1, 4), Fr(1, 2), Fr(1), Fr(2), Fr(4)]
    dy = lambda n=3, k=12: [Fr(rng.randint(-k, k), rng.choice([1, 1, 4])) for _ in range(n)]
    d = rng.choice([1, 2, 3, 3, 4]) if k == "ell" else 3
    e = {}
    if rng.random() < 0.7:
        e["c"] = SV(dy(d))
    q = quat(rng, rng.choice(["quarter", "third", "id"]))
    if d == 3 and rng.random() < 0.5:
        e["q"] = q
    R = quat_mat(q) if "q" in e else [[Fr(int(i == j)) for j in range(d)] for i in range(d)]
    c = [Fr(x) for x in e["c"]] if "c" in e else [Fr(0)] * d
    if k in ("box", "ell"):
        he = [rng.choice(p2) if rng.random() < 0.9 or k == "box" else Fr(0) for _ in range(d)]
        x = s.add("shape.new", new=True, how=k, he=SV(he), **e)
        ext = he
    else:
        r, L = rng.choice(p2), rng.choice(p2)
        x = s.add("shape.new", new=True, how=k, r=S(r), L=S(L), **e)
        ext = [r, r, L / 2 + (r if k == "cap" else 0)]
    pts = []
    for _ in range(12):
        y = [Fr(0)] * d
        if k == "box":
            y = [h * rng.choice([1, -1, 0, Fr(1, 2), Fr(1)]) for h in ext]
        elif k == "cyl" and rng.random() < 0.7:
            y[rng.randrange(2)] = r * rng.choice([1, -1])
            y[2] = L / 2 * rng.choice([1, -1, 0, Fr(1, 2)])
        elif k == "cap" and rng.random() < 0.5:
            y[rng.randrange(2)] = r * rng.choice([1, -1])
            y[2] = L / 2 * rng.choice([1, -1, 0])
        else:
            j = rng.randrange(d)
            y[j] = ext[j] * rng.choice([1, -1])
        if rng.random() < 0.3:
            j = rng.randrange(d)
            y[j] += rng.choice([Fr(1, 16), -Fr(1, 16)])
        pts.append([sum(R[i][j] * y[j] for j in range(d)) + c[i] for i in range(d)])
    s.add(op, of=x, pts=SV(pts), tol="0", exact=True)
    s.add(op, of=x, pts=SV(pts))


def gen_c08(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 3000 if big else 120, lambda ids: [{"op": "shape.contains", "of": x, "pts": GRIDPTS} for x in ids[-2:]], "c08")
    for i in range(4000 if big else 420):
        s = Ses(f"c08-rand-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        d = ell_dim(rng) if k == "ell" else poly_dim(rng) if k == "poly" else 3
        x, sh = new_shape(s, rng, k, scale=rng.choice(WIDE) if k != "poly" else rng.choice(SCALES), degenerate=rng.choice([0, 0, 0.35]), d=d)
        if rng.random() < 0.5:
            x, sh = moved(s, rng, x, sh)
        ask(s, rng, x, sh, tol=None)
        for t in rng.sample(TOLS[2:], 2):
            ask(s, rng, x, sh, tol=t, n=8, ty=rng.choice([None, None, "list", "F", "view", "tuple"]) if k != "none" else None)
        out.append(s.done())
    for i in range(400 if big else 60):
        s = Ses(f"c08-exact-{i}")
        exact_case(s, rng, "shape.contains", ["box", "ell", "ell", "cyl", "cap"])
        out.append(s.done())
    for i in range(60 if big else 25):
        # integer arguments everywhere
        s = Ses(f"c08-int-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        c = ivec(rng)
        e = {"c": SV(c), "q": quat(rng, rng.choice(["quarter", "half", "third"])), "ty": rng.choice(["int", "list", "intlist"])}
        if k == "poly":
            V = [[Fr(a) for a in v] for v in ([0, 0, 0], [3, 0, 0], [0, 2, 0], [0, 0, 4], [3, 2, 4])]
            x = s.add("shape.new", new=True, how="poly", V=SV(V), ty=e["ty"])
        elif k in ("box", "ell"):
            x = s.add("shape.new", new=True, how=k, he=SV([Fr(rng.randint(1, 4)) for _ in range(3)]), **e)
        else:
            x = s.add("shape.new", new=True, how=k, L=S(rng.randint(1, 4)), r=S(rng.randint(1, 4)), **e)
        for ty in ("int", "intlist", "f"):
            s.add("shape.contains", of=x, pts=SV([ivec(rng, 3, 4) for _ in range(10)] + [c]), ty=ty)
        out.append(s.done())
    for i in range(40 if big else 10):
        # many points at once, also in round numbers
        s = Ses(f"c08-many-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        x, sh = new_shape(s, rng, k)
        ask(s, rng, x, sh, n=rng.choice([130, 270, 530, 1030]) if i < 5 else rng.choice([100, 200, 300]), tol=rng.choice(["1/100", "1/1000"]))
        ask(s, rng, x, sh, n=rng.choice([256, 512]) if i < 5 else rng.choice([64, 100, 128, 1000]))
        out.append(s.done())
    for i in range(1200 if big else 150):
        s = Ses(f"c08-poly-{i}")
        sc = rng.choice(SCALES)
        k = rng.choice(["box", "ell", "cyl", "cap", "poly"])
        x, sh = new_shape(s, rng, k, scale=sc)
        # a polyhedron inside, touching or protruding
        a = rng.choice([Fr(1, 4), Fr(2, 3), Fr(1), Fr(1), Fr(5, 4), Fr(1001, 1000)])
        V = []
        c = sh.centre()
        for _ in range(rng.randint(4, 6)):
            p, _n = sh.boundary(rng)
            V.append(add(c, [a * z for z in sub(p, c)]))
        if rng.random() < 0.4 and a <= 1:
            # one vertex sticks out
            p, nn = sh.boundary(rng)
            V[rng.randrange(len(V))] = add(p, [rng.choice([Fr(1, 1000), Fr(1, 10**5), Fr(1)]) * sc * z for z in nn])
        y = s.add("shape.new", new=True, how="poly", V=SV(V), prune=rng.random() < 0.3) if rng.random() < 0.8 else new_shape(s, rng, "box", scale=sc)[0]
        s.add("shape.contains_poly", of=x, poly=y)
        s.add("shape.contains_poly", of=x, poly=y, tol=rng.choice(["1/1000", "1/100000"]))
        out.append(s.done())
    for i in range(100 if big else 15):
        # faces given with arbitrary positive scaling
        s = Ses(f"c08-rows-{i}")
        k, d = pos(rng), rng.choice([2, 3])
        A = [[S(k if a == b else 0) for a in range(d)] for b in range(d)] + [[S(-k if a == b else 0) for a in range(d)] for b in range(d)]
        f = rng.choice([Fr(1, 100), Fr(1), Fr(1000), Fr(10**5)])
        A = [[S(Fr(v) * f) for v in r] for r in A]
        ext = [pos(rng) for _ in range(2 * d)]
        x = s.add("shape.new", new=True, how="halfspaces", A=A, b=SV([h * k * f for h in ext]),
                  **({"prune": rng.random() < 0.5} if rng.random() < 0.5 else {}))
        lo, hi = [-h for h in ext[d:]], ext[:d]
        sh = Shp("poly", V=[[hi[j] if m >> j & 1 else lo[j] for j in range(d)] for m in range(2 ** d)], d=d)
        for t in (None, "1/1000", "1/1000000"):
            ask(s, rng, x, sh, tol=t, n=8)
        out.append(s.done())
    return out


def gen_c09(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 4000 if big else 220, lambda ids: [{"op": "shape.read", "of": x} for x in ids], "c09")
    for i in range(3000 if big else 320):
        s = Ses(f"c09-rand-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        d = ell_dim(rng) if k == "ell" else poly_dim(rng) if k == "poly" else 3
        x, sh = new_shape(s, rng, k, scale=rng.choice(WIDE) if k != "poly" else rng.choice(SCALES), degenerate=rng.choice([0, 0, 0.3]), d=d)
        x0 = x
        for _ in range(rng.randint(1, 3)):
            x, sh = moved(s, rng, x, sh, 1, rng.choice([None, Fr(1)]))
            s.add("shape.read", of=x)
        ask(s, rng, x, sh, n=8)
        s.add("shape.read", of=x0)
        if rng.random() < 0.3:
            # moving by an explicit inverse restores the shape
            e, R, t = move_args(rng, d, sh.size())
            y = s.add("shape.transform", new=True, of=x, **e)
            inv = {}
            if R:
                if "q" in e:
                    inv["q"] = [e["q"][0]] + [S(-Fr(v)) for v in e["q"][1:]]
                else:
                    inv["R"] = SV(transp(R))
            if t:
                inv["t"] = SV([-v for v in (matvec(transp(R), t) if R else t)])
            z = s.add("shape.transform", new=True, of=y, **inv)
            s.add("shape.read", of=z)
            s.add("shape.same", x=x, y=z)
        out.append(s.done())
    for i in range(500 if big else 70):
        s = Ses(f"c09-body-{i}")
        shapes = [new_shape(s, rng)[0] for _ in range(rng.choice([1, 2, 3, 4]))]
        kw = {"par": new_par(s, rng)} if rng.random() < 0.8 else {}
        b = s.add("body.new", new=True, shapes=shapes, **kw)
        for _ in range(rng.randint(1, 3)):
            b = s.add("body.transform", new=True, of=b, **rigid(rng))
            s.add("body.read", of=b)
        out.append(s.done())
    for i in range(10):
        s = Ses(f"c09-int-{i}")
        x = s.add("shape.new", new=True, how=["box", "ell"][i % 2], he=["1", "2", "3"], c=SV(ivec(rng)), ty="int")
        y = s.add("shape.transform", new=True, of=x, q=quat(rng, "quarter"), t=SV(ivec(rng)), ty="int")
        s.add("shape.read", of=y)
        x = s.add("shape.new", new=True, how=["cyl", "cap"][i % 2], L="2", r="3", c=SV(ivec(rng)), ty="int")
        y = s.add("shape.transform", new=True, of=x, q=quat(rng, "quarter"), t=SV(ivec(rng)), ty=rng.choice(["int", "list"]))
        s.add("shape.read", of=y)
        out.append(s.done())
    return out


def gen_c10(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 2000 if big else 0, lambda ids: [], "c10")
    for i in range(4000 if big else 420):
        s = Ses(f"c10-rand-{i}")
        k = ["box", "ell"][i % 2]
        d = ell_dim(rng) if k == "ell" else 3
        if k == "ell" and i % 5 == 1:
            x, sh = new_ell_thin(s, rng, d)
        else:
            x, sh = new_shape(s, rng, k, scale=rng.choice(WIDE), degenerate=rng.choice([0, 0, 0.35]), d=d)
        if rng.random() < 0.5:
            x, sh = moved(s, rng, x, sh)
        ask(s, rng, x, sh, "shape.on_surface", n=12)
        s.add("shape.on_surface", of=x, pts=SV([sh.world([h * rng.choice([0, 0, 1, Fr(1, 2)]) for h in sh.he]) for _ in range(4)]))
        t = rng.choice(TOLS[2:-1])
        ask(s, rng, x, sh, "shape.on_surface", n=8, tol=t, ty=rng.choice([None, None, "list", "F", "view"]))
        if k == "box":
            # vertices, edges, points of the face planes outside the face
            pts = []
            for _ in range(8):
                y = [h * rng.choice([1, -1, 1, -1, Fr(1, 2), 2, 0]) for h in sh.he]
                pts.append(sh.world(y))
            s.add("shape.on_surface", of=x, pts=SV(pts))
        out.append(s.done())
    for i in range(20 if big else 4):
        s = Ses(f"c10-many-{i}")
        x, sh = new_shape(s, rng, ["box", "ell"][i % 2])
        ask(s, rng, x, sh, "shape.on_surface", n=rng.choice([130, 270, 530, 1030]), tol=rng.choice(["1/100", "1/1000"]))
        ask(s, rng, x, sh, "shape.on_surface", n=rng.choice([100, 256, 512]))
        out.append(s.done())
    for i in range(200 if big else 40):
        s = Ses(f"c10-exact-{i}")
        exact_case(s, rng, "shape.on_surface", ["box", "ell"])
        out.append(s.done())
    return out


RATIO = 1500     # up to here shape matrices determine the ellipsoid to the tolerance of the checks


def routes(s, rng, sc):
    """Two shapes built to describe the same set by different routes; returns ids and the generator shape."""
    k = rng.choice(["box", "box", "ell", "ell", "ell", "cyl", "cap", "poly"])
    d = rng.choice([2, 3, 3, 4]) if k == "ell" else rng.choice([1, 2, 2, 3, 3, 3, 3]) if k == "poly" else 3
    x, sh = new_shape(s, rng, k, scale=sc, degenerate=rng.choice([0, 0, 0.3]) if k in ("box", "ell", "cyl") else 0, d=d)
    opts = ["same", "rebuild", "there_and_back"]
    if k == "box":
        opts += ["axes", "as_poly", "poly_of_vertices", "both_poly"] if all(sh.he) else ["axes"]
    if k == "ell":
        opts += ["axes"] + (["shape_matrix", "affine"] if all(sh.he) and max(sh.he) / min(sh.he) < RATIO else [])
    if k in ("cyl", "cap"):
        opts += ["spin", "flip", "spin", "flip"]
    if k == "poly":
        opts += ["permute", "halfspaces", "redundant"]
    o = rng.choice(opts)
    full = lambda sh: ({"c": SV(sh.c), "R": SV(sh.R)})
    if o == "same":
        y = x
    elif o == "rebuild":
        via = {"box": ["ctor", "faces", "span", "both"] if all(sh.he or [0]) else ["ctor"], "ell": ["ctor"], "cyl": ["ctor"], "cap": None,
               "poly": ["span", "faces", "both", "halfspaces"]}[k]
        if via is None:
            y = s.add("shape.new", new=True, how="cap", L=S(sh.L), r=S(sh.r), ctor=True, **full(sh))
        else:
            y = s.add("shape.new", new=True, how="rebuild", of=x, via=rng.choice(via))
    elif o == "there_and_back":
        e, R, t = move_args(rng, d, sh.size())
        inv = {}
        if R:
            inv["R"] = SV(transp(R))
        if t:
            inv["t"] = SV([-v for v in (matvec(transp(R), t) if R else t)])
        y = s.add("shape.transform", new=True, of=s.add("shape.transform", new=True, of=x, **e), **inv)
    elif o == "axes":
        # the same set with permuted axes
        p = list(range(d))
        rng.shuffle(p)
        sg = [rng.choice([1, -1]) for _ in p]
        R = [[sh.R[i][p[j]] * sg[j] for j in range(d)] for i in range(d)]
        if det(R) < 0:
            R = [[v * (-1 if j == 0 else 1) for j, v in enumerate(r)] for r in R]
        y = s.add("shape.new", new=True, how=k, he=SV([sh.he[p[j]] for j in range(d)]), c=SV(sh.c), R=SV(R))
    elif o in ("as_poly",):
        y = s.add("shape.new", new=True, how="as_poly", of=x)
    elif o in ("poly_of_vertices", "both_poly"):
        V = [sh.world([a * b for a, b in zip(sg, sh.he)]) for sg in [(i, j, l) for i in (1, -1) for j in (1, -1) for l in (1, -1)]]
        rng.shuffle(V)
        y = s.add("shape.new", new=True, how="poly", V=SV(V))
        if o == "both_poly":
            x = s.add("shape.new", new=True, how="as_poly", of=x)
    elif o in ("shape_matrix", "affine"):
        y = s.add("shape.new", new=True, how=o, he=SV(sh.he), **full(sh))
    elif o in ("spin", "flip"):
        q = [Fr(rng.randint(1, 5)), Fr(0), Fr(0), Fr(rng.randint(-5, 5))] if o == "spin" else [Fr(0), Fr(rng.randint(1, 5)), Fr(rng.randint(-5, 5)), Fr(0)]
        R = matmul(sh.R, quat_mat(q))
        y = s.add("shape.new", new=True, how=k, L=S(sh.L), r=S(sh.r), c=SV(sh.c), R=SV(R))
    elif o == "permute":
        V = list(sh.V)
        rng.shuffle(V)
        y = s.add("shape.new", new=True, how="poly", V=SV(V))
    elif o == "halfspaces":
        y = s.add("shape.new", new=True, how="rebuild", of=x, via="halfspaces")
    else:
        V = list(sh.V) + [[(a + b) / 2 for a, b in zip(sh.V[0], sh.V[1])]]
        if rng.random() < 0.4:
            V.append([sum(v[j] for v in sh.V) / len(sh.V) for j in range(d)])
        rng.shuffle(V)
        y = s.add("shape.new", new=True, how="poly", V=SV(V), prune=rng.random() < 0.5)
    return x, y, sh


def gen_c11(rng, tier, scns):
    big = tier == "thorough"
    def tail(ids):
        return [{"op": "shape.same", "x": a, "y": b} for a in ids[-3:] for b in ids[-3:]]
    out = scen(scns, rng, 3000 if big else 150, tail, "c11")
    for i in range(4000 if big else 400):
        s = Ses(f"c11-same-{i}")
        x, y, sh = routes(s, rng, rng.choice(WIDE[:5]) if i % 3 else Fr(1))
        s.add("shape.same", x=x, y=y)
        s.add("shape.same", x=y, y=x)
        s.add("shape.same", x=x, y=x)
        s.add("shape.same", x=y, y=y)
        if rng.random() < 0.5:
            e, R, t = move_args(rng, sh.d, sh.size())
            a = s.add("shape.transform", new=True, of=x, **e)
            b = s.add("shape.transform", new=True, of=y, **e)
            s.add("shape.same", x=a, y=b)
            s.add("shape.same", x=b, y=a)
            s.add("shape.same", x=a, y=x)
        if rng.random() < 0.3:
            s.add("shape.same", x=x, y=y, tol=rng.choice(["1/1000000", "1/1000"]))
        out.append(s.done())
    for i in range(4000 if big else 420):
        # clearly different shapes, including differences in a single attribute
        s = Ses(f"c11-diff-{i}")
        k = rng.choice(["box", "ell", "cyl", "cap", "poly"])
        x, sh = new_shape(s, rng, k, scale=rng.choice(SCALES), degenerate=rng.choice([0, 0, 0.3]))
        dl = rng.choice([Fr(1, 100), Fr(1, 10), Fr(1), Fr(1, 1000), Fr(1, 5000), Fr(1, 30000)]) * sh.size()
        what = rng.choice(["move", "size", "rotate", "kind", "other", "size", "rotate"])
        if what == "move" or (what == "size" and k == "poly"):
            t = [Fr(0)] * 3
            t[rng.randrange(3)] = dl * rng.choice([1, -1])
            y = s.add("shape.transform", new=True, of=x, t=SV(t))
        elif what == "size":
            full = {"c": SV(sh.c), "R": SV(sh.R)}
            if sh.he:
                he = list(sh.he)
                he[rng.randrange(3)] += dl
                y = s.add("shape.new", new=True, how=k, he=SV(he), **full)
            else:
                L, r = (sh.L + dl, sh.r) if rng.random() < 0.5 else (sh.L, sh.r + dl)
                y = s.add("shape.new", new=True, how=k, L=S(L), r=S(r), **full)
        elif what == "rotate":
            q = quat(rng, rng.choice(["gen", "quarter", "tiny", "axis"]))
            R = quat_mat(q)
            y = s.add("shape.rotc", new=True, of=x, q=q) if k in ("box", "ell") else \
                s.add("shape.transform", new=True, of=x, q=q, t=SV(sub(sh.centre(), matvec(R, sh.centre()))))
        elif what == "kind":
            k2 = rng.choice([z for z in ["box", "ell", "cyl", "cap", "poly"] if z != k])
            full = {"c": SV(sh.centre()), "R": SV(sh.R)}
            z = sh.size()
            y = s.add("shape.new", new=True, how=k2, he=SV([z] * 3), **full) if k2 in ("box", "ell") else \
                s.add("shape.new", new=True, how=k2, L=S(z), r=S(z), **full) if k2 in ("cyl", "cap") else new_shape(s, rng, "poly")[0]
        else:
            y, _ = new_shape(s, rng, k)
        s.add("shape.same", x=x, y=y)
        s.add("shape.same", x=y, y=x)
        out.append(s.done())
    for i in range(1500 if big else 150):
        # inertial parameters
        s = Ses(f"c11-par-{i}")
        x = new_par(s, rng)
        y = s.add("par.conv", new=True, of=x, route=rng.choice(["vec", "pim", "hH", "cI", "cIc", "hHc"]))
        s.add("par.same", x=x, y=y)
        s.add("par.same", x=y, y=x)
        s.add("par.same", x=x, y=x)
        e = rigid(rng)
        a, b = s.add("par.transform", new=True, of=x, **e), s.add("par.transform", new=True, of=y, **e)
        s.add("par.same", x=a, y=b)
        s.add("par.same", x=a, y=x)
        # parameters that differ in one moment only
        m = rng.choice(["m", "h", "H", "Hoff"])
        J = [[Fr(0)] * 4 for _ in range(4)]
        for _ in range(5):
            v = [num(rng) for _ in range(3)] + [Fr(1)]
            w = pos(rng)
            J = [[J[p][q] + w * v[p] * v[q] for q in range(4)] for p in range(4)]
        x = s.add("par.pim", new=True, J=SV(J))
        K = [list(r) for r in J]
        dl = rng.choice([Fr(1, 2), Fr(1, 10), Fr(3)])
        if m == "m":
            K[3][3] += dl * (1 + K[3][3])
        elif m == "h":
            j = rng.randrange(3)
            K[j][3] = K[3][j] = K[j][3] + dl * (1 + abs(K[j][3]))
        elif m == "H":
            j = rng.randrange(3)
            K[j][j] += dl * (1 + K[j][j])
        else:
            a, b = rng.sample(range(3), 2)
            K[a][b] = K[b][a] = K[a][b] + dl * (1 + abs(K[a][b]))
        y = s.add("par.pim", new=True, J=SV(K))
        s.add("par.same", x=x, y=y)
        s.add("par.same", x=y, y=x)
        out.append(s.done())
    return out


def gen_c12(rng, tier, scns):
    big = tier == "thorough"
    out = scen(scns, rng, 3000 if big else 200, lambda ids: [{"op": "shape.read", "of": x} for x in ids], "c12")
    for i in range(4000 if big else 420):
        s = Ses(f"c12-rand-{i}")
        k = ["box", "ell", "cyl", "cap", "poly"][i % 5]
        x, sh = new_shape(s, rng, k, scale=rng.choice(WIDE) if k != "poly" else rng.choice(SCALES), degenerate=rng.choice([0, 0, 0.3]))
        if rng.random() < 0.4:
            x, sh = moved(s, rng, x, sh)
        b = s.add("shape.aabb", new=True, of=x)
        s.add("shape.read", of=b)
        if k in ("ell", "cyl", "cap"):
            s.add("shape.read", of=s.add("shape.mbb", new=True, of=x))
        if k in ("ell", "cyl"):
            s.add("shape.read", of=s.add("shape.mib", new=True, of=x))
        if rng.random() < 0.3:
            s.add("shape.read", of=s.add("shape.aabb", new=True, of=b))
            s.add("shape.read", of=x)
        out.append(s.done())
    for i in range(1200 if big else 150):
        s = Ses(f"c12-ctor-{i}")
        sc = rng.choice(WIDE)
        ty = rng.choice(["f", "f", "F", "view", "list"])
        P = [vec(rng, 3, sc) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.3:
            P = [[Fr(rng.randint(-5, 5)) for _ in range(3)] for _ in range(rng.randint(1, 6))]
            ty = rng.choice(["int", "intlist", "f"])
        s.add("shape.read", of=s.add("shape.new", new=True, how="points_to_bound", pts=SV(P), ty=ty))
        s.add("shape.read", of=s.add("shape.new", new=True, how="two_vertices", v1=SV(P[0]), v2=SV(P[-1]), ty=ty))
        e = {}
        if rng.random() < 0.7:
            e["c"] = SV(vec(rng, 3, sc))
        if rng.random() < 0.7:
            e["q"] = quat(rng)
        s.add("shape.read", of=s.add("shape.new", new=True, how="side_lengths", sl=SV([pos(rng, sc) for _ in range(3)]), **e))
        s.add("shape.read", of=s.add("shape.new", new=True, how="cube", a=S(pos(rng, sc)), **e))
        s.add("shape.read", of=s.add("shape.new", new=True, how="box", he=SV([pos(rng, sc) for _ in range(3)]), **e))
        out.append(s.done())
    return out


def new_ell_thin(s, rng, d):
    """A solid ellipsoid much longer one way than another."""
    he = [pos(rng, 1) / rng.choice([1, 1, 20, 300, 2000]) for _ in range(d)]
    c, R = vec(rng, d, 1), rot_n(rng, d)
    x = s.add("shape.new", new=True, how="ell", he=SV(he), c=SV(c), R=SV(R))
    return x, Shp("ell", c, R, he=he, d=d)


def gen_c30(rng, tier, scns):
    big = tier == "thorough"
    out = []
    for i in range(5000 if big else 520):
        s = Ses(f"c30-rand-{i}")
        d = rng.choice([1, 2, 2, 3, 3, 3, 4, 5]) if i % 4 else 3
        sc = rng.choice(WIDE)
        x, sh = new_ell_thin(s, rng, d) if i % 6 == 1 else new_shape(s, rng, "ell", scale=sc, degenerate=rng.choice([0, 0, 0.4]), d=d)
        if rng.random() < 0.4:
            x, sh = moved(s, rng, x, sh)
        s.add("ell.reps", of=x)
        s.add("shape.read", of=x)
        if all(sh.he) and max(sh.he) / min(sh.he) < RATIO:
            for via in ("shape_matrix", "affine"):
                y = s.add("shape.new", new=True, how="rebuild", of=x, via=via)
                s.add("shape.read", of=y)
                s.add("ell.reps", of=y)
                z = s.add("shape.new", new=True, how=via, he=SV(sh.he), c=SV(sh.c), R=SV(sh.R))
                s.add("shape.read", of=z)
                ask(s, rng, z, sh, n=6)
        ask(s, rng, x, sh, n=6)
        out.append(s.done())
    for i in range(20):
        s = Ses(f"c30-int-{i}")
        d = rng.choice([1, 2, 3])
        he = [Fr(rng.randint(0 if i % 2 else 1, 4)) for _ in range(d)]
        kw = {"scalar": True} if d == 1 else {}
        x = s.add("shape.new", new=True, how="ell", he=SV(he), c=SV(ivec(rng, d)), ty=rng.choice(["int", "intlist", "list", "f"]), **kw)
        s.add("ell.reps", of=x)
        s.add("shape.read", of=x)
        c = ivec(rng, d)
        y = s.add("shape.new", new=True, how="sphere", r=S(rng.randint(1, 3)), c=SV(c), ty=rng.choice(["int", "f", "list"]))
        s.add("ell.reps", of=y)
        s.add("shape.read", of=y)
        out.append(s.done())
    s = Ses("c30-refused")
    s.add("shape.bad", how="ell", he=["1", "-1", "2"])
    s.add("shape.bad", how="box", he=["1", "-1/2", "2"])
    s.add("shape.bad", how="cyl", L="-1", r="2")
    s.add("shape.bad", how="cyl", L="1", r="-2")
    out.append(s.done())
    return out


MC = lambda d, n, emit: f"CONSTANTS Depth = {d} MaxObj = {n} Emit = {emit}\nINIT Init\nNEXT Next\nINVARIANTS MovesExact BoundsExact InscribedInside SameSound SupportSound AcceptSound Emitted\nCHECK_DEADLOCK FALSE\n"


def models(tier):
    return [("MC_Shapes", MC(2, 2, "TRUE") if tier == "quick" else MC(3, 3, "TRUE"))]


PROPS = {
    "C08": {"models": models, "gen": gen_c08},
    "C09": {"models": models, "gen": gen_c09},
    "C10": {"models": models, "gen": gen_c10},
    "C11": {"models": models, "gen": gen_c11},
    "C12": {"models": models, "gen": gen_c12},
    "C30": {"models": models, "gen": gen_c30},
}
