"""Scenarios for the polynomial and moment algebra (C23) and the order-insensitive comparison (C29)."""
from itertools import permutations
from .common import *


def monos(n, d):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(d + 1) for r in monos(n - 1, d - k)]


DYAD = (1, 2, 4, 8)


def rterms(rng, n, d, k=None, dens=DYAD, tiny=False):
    ms = monos(n, d)
    k = k or rng.randint(1, min(6, len(ms)))
    out = []
    for m in rng.sample(ms, min(k, len(ms))):
        c = Fr(0)
        while c == 0:
            c = num(rng, 1, dens)
        if tiny and rng.random() < 0.3:
            c = c / 10**9
        out.append({"i": m, "c": S(c)})
    return out


def pts(rng, n, k, dens=DYAD, sc=Fr(1)):
    return [vec(rng, n, sc) for _ in range(k)]


def masses(rng, n, k, signed=False):
    return [{"m": S(num(rng) if signed else pos(rng)), "r": SV([num(rng, Fr(1, 4)) for _ in range(n)])} for _ in range(k)]


def new_poly(s, rng, n, d, **kw):
    e = {}
    k = rng.choice(["str", "tuple", "idx", "npidx"])
    ts = kw.pop("ts", None) or rterms(rng, n, d, **kw)
    if rng.random() < 0.25:
        # negligible terms are dropped with a tolerance (zero ones always)
        e["tol"] = rng.choice(["1/1000000", "1/1000000000000"])
        for m in rng.sample(monos(n, d), 1):
            if m not in [t["i"] for t in ts]:
                ts.append({"i": m, "c": rng.choice(["1/100000000000000", "-1/100000000000000", "0"])})
    elif rng.random() < 0.2:
        m = rng.choice(monos(n, d))
        if m not in [t["i"] for t in ts]:
            ts.append({"i": m, "c": "0"})
    ty = "int" if all(Fr(t["c"]).denominator == 1 for t in ts) and rng.random() < 0.5 else "f"
    return s.add("poly.new", new=True, n=n, s=ts, kt=k, ty=ty, **e), ts


def read(s, rng, p, n, exact=True):
    ty = rng.choice(["f", "f", "list", "int"])
    P = [ivec(rng, n, 3) for _ in range(2)] if ty == "int" else pts(rng, n, 3)
    s.add("poly.read", of=p, pts=SV(P), ty=ty, exact=exact)


def gen_c23(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = list(scns.get("MC_Mom", []))
    rng.shuffle(al)
    for i, sc in enumerate(al[:4000 if big else 250]):
        s = Ses(f"c23-model-{i}")
        n = sc["n"]
        kt = rng.choice(["str", "tuple", "idx"])
        p = s.add("poly.new", new=True, n=n, s=sc["p"], kt=kt, ty=rng.choice(["f", "int"]))
        x = p
        if sc["q"]:
            q = s.add("poly.new", new=True, n=n, s=sc["q"], kt=kt)
            x = s.add("poly.add", new=True, x=p, y=q)
        m = rng.choice(monos(n, 2))
        y = s.add("poly.loc", new=True, of=x, i=m)
        for z in (x, y, p):
            read(s, rng, z, n)
        d = 2
        deg = max(sum(t["i"]) for t in sc["p"])
        if (deg + 1) // 2 <= d:
            s.add("mm.numloc", of=p, n=n, d=d, pts=masses(rng, n, 3, rng.random() < 0.5))
            s.add("mm.loc", of=p, n=n, d=d, dl=rng.randint(0, d))
        out.append(s.done())
    for i in range(2500 if big else 160):
        s = Ses(f"c23-poly-{i}")
        n, d = rng.randint(1, 4), rng.randint(0, 4)
        rat = rng.random() < 0.3
        xs = []
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.2:
                a, b = vec(rng, n, 1, 0.3), num(rng)
                e = {}
                if rng.random() < 0.4:
                    e["tol"] = "1/1000000000000"
                    a[0] = Fr(1, 10**14)
                if not any(a) and not b:
                    continue
                x = s.add("poly.affine", new=True, a=SV(a), b=S(b), ty=rng.choice(["f", "list", "tuple"]), **e)
                rat = True
            else:
                x, _ = new_poly(s, rng, n, d, dens=DENS if rat else DYAD, tiny=rat)
            xs.append(x)
            read(s, rng, x, n, exact=not rat)
        if not xs:
            continue
        if not rat and rng.random() < 0.4:
            ts = [e for e in s.ev if e.get("id") == xs[0] and "s" in e]
            if ts:
                # cancellation: the opposite polynomial, or of the leading terms only
                neg = [{"i": t["i"], "c": S(-Fr(t["c"]))} for t in ts[0]["s"]]
                top = max(sum(t["i"]) for t in neg)
                if rng.random() < 0.5:
                    neg = [t for t in neg if sum(t["i"]) == top]
                xs.append(s.add("poly.new", new=True, n=n, s=neg, kt="tuple", ty="f"))
        for _ in range(rng.randint(2, 5)):
            k = rng.random()
            if k < 0.6:
                x = s.add("poly.add", new=True, x=rng.choice(xs), y=rng.choice(xs))
            else:
                x = s.add("poly.loc", new=True, of=rng.choice(xs), i=rng.choice(monos(n, 3)))
            xs.append(x)
            read(s, rng, x, n, exact=not rat)
        for x in rng.sample(xs, min(3, len(xs))):      # operands are what they were
            read(s, rng, x, n, exact=not rat)
        out.append(s.done())
    for n in range(1, 6):
        s = Ses(f"c23-basis-{n}")
        for d in range(0, (5 if n < 4 else 3) + (2 if big else 0)):
            s.add("poly.basis", n=n, d=d)
            if d <= 3 and n <= 4:
                s.add("mm.indices", n=n, d=d)
            if d <= 4:
                x = s.add("poly.ones", new=True, n=n, d=d)
                read(s, rng, x, n)
        z = s.add("poly.zeros", new=True, n=n)
        read(s, rng, z, n)
        x, _ = new_poly(s, rng, n, 2)
        read(s, rng, s.add("poly.add", new=True, x=z, y=x), n)
        read(s, rng, s.add("poly.add", new=True, x=x, y=z), n)
        out.append(s.done())
    for i in range(40):
        s = Ses(f"c23-idx-{i}")
        n = rng.randint(1, 4)
        for _ in range(4):
            x = [rng.choice([0, 1, 1, 2, 11]) for _ in range(n)]
            y = x[:] if rng.random() < 0.3 else [rng.choice([0, 1, 2]) for _ in range(n)]
            if rng.random() < 0.3:
                y = x[::-1]
            s.add("idx.ops", x=x, y=y)
        out.append(s.done())
    for i in range(1500 if big else 120):
        s = Ses(f"c23-mom-{i}")
        n = rng.choice([1, 2, 2, 3, 3, 4])
        d = rng.randint(1, 3) if n < 3 else rng.randint(1, 2)
        rat = rng.random() < 0.5
        for _ in range(2):
            x, ts = new_poly(s, rng, n, rng.randint(0, min(2 * d, 3)), dens=DENS if rat else DYAD)
            deg = max(sum(t["i"]) for t in ts if abs(Fr(t["c"])) > Fr(1, 10**6))
            for _ in range(2):
                s.add("mm.numloc", of=x, n=n, d=d, pts=masses(rng, n, rng.randint(1, 5), rng.random() < 0.4))
            s.add("mm.loc", of=x, n=n, d=d, dl=rng.randint(0, d))
        out.append(s.done())
    for i in range(800 if big else 60):
        s = Ses(f"c23-lin-{i}")
        n = rng.choice([1, 2, 2, 3, 3])
        d = rng.randint(1, 3) if n < 3 else rng.randint(1, 2)
        from math import comb
        r = comb(n + d, d)
        B = sorted(monos(n, d), key=lambda m: (sum(m), [-k for k in m]))
        P = masses(rng, n, rng.randint(1, 4), rng.random() < 0.3)
        for _ in range(3):
            dM = [[Fr(0)] * r for _ in range(r)]
            k = rng.choice(["none", "one", "one", "hankel"])
            if k == "one":
                a, b = rng.randrange(r), rng.randrange(r)
                dM[a][b] = dM[b][a] = rng.choice([Fr(1), Fr(-1, 4), Fr(1, 50)])
            elif k == "hankel":
                a, b = rng.randrange(r), rng.randrange(r)
                t = add(B[a], B[b])
                for x in range(r):
                    for y in range(r):
                        if add(B[x], B[y]) == t:
                            dM[x][y] = Fr(1, 2)
            s.add("mm.lin", n=n, d=d, pts=P, dM=SV(dM), sym=rng.random() < 0.5)
        out.append(s.done())
    for i in range(300 if big else 24):
        s = Ses(f"c23-psd-{i}")
        n = rng.choice([1, 2, 2, 3])
        d = rng.randint(1, 2) if n < 3 else 1
        ps, tl = [], []
        for _ in range(rng.randint(1, 2)):
            a, b = ivec(rng, n, 2), Fr(rng.randint(0, 3))
            if not any(a):
                a[0] = Fr(1)
            if d == 2 and rng.random() < 0.4:
                # 9 - |x|^2
                ts = [{"i": [0] * n, "c": "9"}] + [{"i": [2 * int(j == k) for j in range(n)], "c": "-1"} for k in range(n)]
                ps.append(s.add("poly.new", new=True, n=n, s=ts, kt="tuple", ty="f"))
                tl.append(lambda x: 9 - sum(v * v for v in x))
            else:
                ps.append(s.add("poly.affine", new=True, a=SV(a), b=S(b), ty="f"))
                tl.append(lambda x, a=a, b=b: b - sum(u * v for u, v in zip(a, x)))
        for _ in range(2):
            P = []
            want = rng.random() < 0.6
            tries = 0
            while len(P) < 3 and tries < 200:
                tries += 1
                x = [Fr(rng.randint(-8, 8), 2) for _ in range(n)]
                if not want or all(f(x) >= 0 for f in tl):
                    P.append({"m": S(pos(rng)), "r": SV(x)})
            if P:
                s.add("mm.psd", n=n, d=d, pts=P, ps=ps)
        out.append(s.done())
    return out


def gen_c29(rng, tier, scns):
    big = tier == "thorough"
    out = []
    al = list(scns.get("MC_Bag", []))
    rng.shuffle(al)
    lim = 30000 if big else 2000
    s = None
    for i, sc in enumerate(al[:lim]):
        if i % 25 == 0:
            s = Ses(f"c29-model-{i // 25}")
            n = rng.randint(1, 3)
            rows = []
            while len(rows) < 9:
                r = ivec(rng, n, 4)
                if r not in rows:
                    rows.append(r)
        A, B = [SV(rows[k]) for k in sc["A"]], [SV(rows[k]) for k in sc["B"]]
        s.add("tu.unordered", A=A, B=B, na=n, nb=n, ty=rng.choice(["f", "int"]), **K0)
        if i % 25 == 24 or i == min(lim, len(al)) - 1:
            out.append(s.done())
    for i in range(60 if big else 12):
        # many rows
        s = Ses(f"c29-many-{i}")
        n, w = rng.randint(10, 45), rng.randint(1, 4)
        A = [ivec(rng, w, 6) for _ in range(n)]
        for k in ("same", rng.choice(["columns", "one", "dup"]), "columns" if w > 1 else "one"):
            B = A[:]
            rng.shuffle(B)
            if k == "columns":
                # every column is the same bag of numbers, the rows are not
                B = [list(r) for r in B]
                j = rng.randrange(w)
                a, b = rng.sample(range(n), 2)
                B[a][j], B[b][j] = B[b][j], B[a][j]
            elif k == "one":
                B[rng.randrange(n)] = ivec(rng, w, 6)
            elif k == "dup":
                B[0] = B[1]
            s.add("tu.unordered", A=SV(A), B=SV(B), na=w, nb=w, ty=rng.choice(["f", "int"]), **K0)
        out.append(s.done())
    for i in range(2500 if big else 200):
        s = Ses(f"c29-rand-{i}")
        for _ in range(6):
            n, w = rng.randint(1, 7), rng.randint(1, 4)
            # few distinct rows, some differing in one column only
            base = ivec(rng, w, 3)
            pool = [base]
            for _ in range(rng.randint(0, 3)):
                r = list(rng.choice(pool))
                r[rng.randrange(w)] += rng.choice([1, -1, 2, Fr(1, 2)])
                pool.append(r)
            A = [rng.choice(pool) for _ in range(n)]
            B = A[:]
            rng.shuffle(B)
            k = rng.choice(["same", "same", "dup", "one", "far", "noise", "noise", "tol"])
            kw = dict(K0)
            if k == "dup" and n > 1:
                B[0] = B[1]
            elif k == "one":
                B[rng.randrange(n)] = rng.choice(pool)
            elif k == "far":
                B[rng.randrange(n)] = [x + 50 for x in base]
            elif k == "noise":
                B = [[x + Fr(rng.randint(-9, 9), 10**11) for x in r] for r in B]
            elif k == "tol":
                # the given tolerance decides
                d = Fr(1, 20)
                B = [[x + rng.choice([d, -d]) for x in r] for r in B]
                kw = {"kw": ["atol", "rtol"], "atol": rng.choice(["1/10", "1/50", "1/1000"]), "rtol": "0", "equal_nan": False}
                if rng.random() < 0.4:
                    A = [[x + 8 for x in r] for r in A]
                    B = [[x + 8 for x in r] for r in B]
                    kw = {"kw": ["rtol"], "atol": "1/100000000", "rtol": rng.choice(["1/20", "1/10000"]), "equal_nan": False}
            A, B = SV(A), SV(B)
            if rng.random() < 0.1:
                v = rng.choice([True, False])
                A[0][0] = "nan"
                if rng.random() < 0.8:
                    B[rng.randrange(n)][0] = "nan"
                kw = {"kw": ["equal_nan"], "atol": "1/100000000", "rtol": "1/100000", "equal_nan": v}
            na = nb = w
            if rng.random() < 0.12:
                j = rng.choice(["rows", "cols", "bcast", "onecol"])
                if j == "rows":
                    B = B + [B[0]]
                elif j == "cols":
                    B = [r + ["0"] for r in B]
                    nb += 1
                elif j == "bcast":
                    B = B[:1]
                    A = A[:1] * 2
                else:
                    A = [[r[0]] * 2 for r in A]
                    B = [r[:1] for r in A]
                    na, nb = 2, 1
            s.add("tu.unordered", A=A, B=B, na=na, nb=nb, ty="f", **kw)
        out.append(s.done())
    s = Ses("c29-empty")
    for w in (1, 3):
        s.add("tu.unordered", A=[], B=[], na=w, nb=w, **K0)
    out.append(s.done())
    return out


K0 = {"kw": [], "atol": "1/100000000", "rtol": "1/100000", "equal_nan": False}
MOM = lambda n, d, mt: (f"CONSTANTS N = {n} D = {d} MT = {mt} Emit = TRUE\nINIT Init\nNEXT Next\n"
                        "INVARIANTS Evaluates Commutes Localises DegreeLaw BasisLaw LocLaw Emitted\nCHECK_DEADLOCK FALSE\n")
BAG = lambda k, m: (f"CONSTANTS K = {k} MR = {m} Emit = TRUE\nINIT Init\nNEXT Next\n"
                    "INVARIANTS Greedy Matched Classes Emitted\nCHECK_DEADLOCK FALSE\n")


def models23(tier):
    return [("MC_Mom", MOM(2, 2, 2) if tier == "quick" else MOM(2, 2, 3))]


def models29(tier):
    return [("MC_Bag", BAG(3, 3) if tier == "quick" else BAG(3, 4))]


PROPS = {"C23": {"models": models23, "gen": gen_c23}, "C29": {"models": models29, "gen": gen_c29}}
