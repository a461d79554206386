"""Optimal ellipsoids, containment constraints, closest points; with dual certificates for the specification to check.

The certificates are computed here from the target alone (never from the library's answer), and are not trusted: the
specification verifies them exactly."""
import numpy as np
import cvxpy as cp
import scipy.optimize
import scipy.spatial
import rigeo as rg
from enc import enc, rat
from .base import arr, num, fr
from .shapes import read_shape, kind
from .params import read_params as read_par

SOLVER = "CLARABEL"


def read_ell(s):
    if not isinstance(s, rg.Ellipsoid):
        return {k: enc(type(s).__name__) for k in ("half_extents", "rotation", "center")}
    return {k: enc(getattr(s, k)) for k in ("half_extents", "rotation", "center")}


# ------------------------------------------------------------------ targets as hulls of ellipsoids (c, B)
def parts(s):
    k = kind(s)
    d = s.dim if k in ("poly", "ell") else 3
    if k in ("poly", "box"):
        return [(np.array(v, dtype=float), np.zeros((d, d))) for v in s.vertices]
    if k == "ell":
        return [(s.center.astype(float), s.rotation @ np.diag(s.half_extents))]
    cyl = s if k == "cyl" else s.cylinder
    B = cyl.rotation @ np.diag([cyl.radius, cyl.radius, 0 if k == "cyl" else cyl.radius])
    return [(np.array(c, dtype=float), B) for c in cyl.endpoints()]


def multiplier(G, w, tol=5e-5):
    """t maximising the smallest eigenvalue of the S-lemma matrix (concave in t)."""
    d = G.shape[1]
    M0 = np.zeros((d + 1, d + 1))
    M0[:d, :d], M0[:d, d], M0[d, :d], M0[d, d] = -G.T @ G, -G.T @ w, -w @ G, 1 + tol - w @ w
    D = np.diag([1.0] * d + [-1.0])
    f = lambda t: np.linalg.eigvalsh(M0 + t * D)[0]
    lo, hi = 0.0, 2.0
    for _ in range(120):
        a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if f(a) < f(b):
            lo = a
        else:
            hi = b
    if f((lo + hi) / 2) >= 0:
        return (lo + hi) / 2
    # sticks out by more than that: the multiplier of the smallest enlargement that holds it
    lam, U = np.linalg.eigh(G.T @ G)
    y2 = (U.T @ (G.T @ w)) ** 2
    g = lambda t: t + np.sum(y2 / (t - lam))
    lo, hi = lam[-1] + 1e-7 * max(lam[-1], 1e-3), lam[-1] + 2.0
    for _ in range(200):
        a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if g(a) > g(b):
            lo = a
        else:
            hi = b
    return (lo + hi) / 2


def multipliers(ell, ps):
    """One multiplier for each part to lie in the ellipsoid."""
    if not isinstance(ell, rg.Ellipsoid):
        return []
    he, R, c0 = np.asarray(ell.half_extents, float), np.asarray(ell.rotation, float), np.asarray(ell.center, float)
    nz = he > 1e-8
    res = []
    for c, B in ps:
        try:
            G = (R.T @ B)[nz] / he[nz][:, None]
            w = (R.T @ (c - c0))[nz] / he[nz]
            res.append(rat(multiplier(G, w)) if np.any(B) else "0")
        except Exception:
            res.append("0")
    return res


# ------------------------------------------------------------------ dual certificates
def weights_ell(X):
    """Weights maximising the determinant of the weighted covariance of the points (rows, full rank)."""
    n, d = X.shape
    Y = np.hstack([X, np.ones((n, 1))])
    q, r = np.linalg.qr(Y)          # condition
    q = q * np.sqrt(n)
    lam = np.full(n, 1.0 / n)
    for it in range(6000):
        M = (q * lam[:, None]).T @ q
        g = np.einsum("ij,ij->i", q @ np.linalg.inv(M), q)
        up = np.argmax(g)
        act = lam > 0
        dn = np.argmin(np.where(act, g, np.inf))
        eu, ed = g[up] / (d + 1) - 1, 1 - g[dn] / (d + 1)
        if max(eu, ed) < 1e-9:
            break
        if eu >= ed:
            k = g[up]
            st = (k - (d + 1)) / ((d + 1) * (k - 1))
            lam *= 1 - st
            lam[up] += st
        else:
            k = g[dn]
            st = ((d + 1) - k) / ((d + 1) * (k - 1)) if k > 1 else np.inf
            st = min(st, lam[dn] / (1 - lam[dn]))
            lam *= 1 + st
            lam[dn] -= st
            lam[dn] = 0 if lam[dn] < 1e-14 else lam[dn]
    gap = np.max(np.einsum("ij,ij->i", q @ np.linalg.inv((q * lam[:, None]).T @ q), q)) / (d + 1) - 1
    return lam, gap


def weights_ball(X):
    n, d = X.shape
    c = X.mean(axis=0)
    s = np.max(np.linalg.norm(X - c, axis=1)) or 1.0
    Z = (X - c) / s
    lam = np.full(n, 1.0 / n)
    q = np.sum(Z * Z, axis=1)
    for it in range(20000):         # away-step Frank-Wolfe on the dual
        m = Z.T @ lam
        g = q - 2 * Z @ m
        up = np.argmax(g)
        act = lam > 0
        dn = np.argmin(np.where(act, g, np.inf))
        avg = lam @ g
        if g[up] - avg < 1e-10 and avg - g[dn] < 1e-10:
            break
        if g[up] - avg >= avg - g[dn]:
            D = -lam.copy()
            D[up] += 1
            mx = 1.0
        else:
            D = lam.copy()
            D[dn] -= 1
            mx = lam[dn] / (1 - lam[dn]) if lam[dn] < 1 else 1.0
        zd = Z.T @ D
        den = 2 * zd @ zd
        st = min(mx, (g @ D) / den if den > 0 else mx)
        lam = lam + st * D
        lam[lam < 1e-15] = 0
    m = Z.T @ lam
    prim = np.max(np.sum((Z - m) ** 2, axis=1))
    dual = lam @ q - m @ m
    return lam, (prim - dual) / max(prim, 1e-300)


def weights_ip(X, sphere):
    """The same weights by an interior-point solver, for many nearly coincident points."""
    n, d = X.shape
    c = X.mean(axis=0)
    Z = (X - c) / np.max(np.abs(X - c))
    lam = cp.Variable(n, nonneg=True)
    if sphere:
        obj = cp.Minimize(cp.sum_squares(Z.T @ lam) - np.sum(Z * Z, axis=1) @ lam)
    else:
        Q = np.hstack([Z, np.ones((n, 1))])
        obj = cp.Maximize(cp.log_det(Q.T @ cp.diag(lam) @ Q))
    cp.Problem(obj, [cp.sum(lam) == 1]).solve(solver=SOLVER)
    v = np.maximum(lam.value, 0)
    return v / np.sum(v), 0.0


def rowspace(ps):
    r = ps[0][0]
    cols = [c - r for c, _ in ps] + [b for _, B in ps for b in B.T]
    A = np.array(cols)
    U, s, Vt = np.linalg.svd(A)
    k = int(np.sum(s > 1e-9 * max(s[0], 1e-300)))
    return r, Vt[:k].T


def farthest(P, c0, part, rng):
    """Local maximisers u of |sqrt(P) (c + B u - c0)| over the unit sphere."""
    c, B = part
    d = B.shape[1]
    L = np.linalg.cholesky(P).T
    G, w = L @ B, L @ (c - c0)
    K, k = G.T @ G, G.T @ w
    U = rng.normal(size=(40, d))
    ev, V = np.linalg.eigh(K)
    U = np.vstack([U, V.T, -V.T, k[None] if np.any(k) else V[:, :1].T])
    U /= np.linalg.norm(U, axis=1)[:, None]
    for _ in range(300):
        W = U @ K + k
        nw = np.linalg.norm(W, axis=1)
        W[nw < 1e-14] = U[nw < 1e-14]
        nw[nw < 1e-14] = 1
        U = W / nw[:, None]
    return c + U @ B.T


def certificate(ps, sphere):
    """(points of the target, weights) or None when the certificate is not accurate enough to judge by."""
    try:
        rng = np.random.default_rng(0)
        r, R = rowspace(ps)
        qs = [((c - r) @ R, R.T @ B) for c, B in ps]
        k = R.shape[1]
        if k == 0:
            return None
        X = np.vstack([c[None] if not np.any(B) else c + (lambda U: U / np.linalg.norm(U, axis=1)[:, None])(rng.normal(size=(60, B.shape[1]))) @ B.T for c, B in qs])
        curved = [p for p in qs if np.any(p[1])]
        if not curved:
            lam, gap = (weights_ball if sphere else weights_ell)(X)
            if gap > 1e-6:
                return None
        for it in range(14 if curved else 0):
            lam, gap = weights_ip(X, sphere)
            c0 = lam @ X
            M = ((X - c0) * lam[:, None]).T @ (X - c0)
            P = np.eye(k) / np.trace(M) if sphere else np.linalg.inv(M) / k
            Y = np.vstack([farthest(P, c0, p, rng) for p in curved])
            far = np.max(np.einsum("ij,jk,ik->i", Y - c0, P, Y - c0)) - 1
            if far < 1e-5:
                break
            if it == 13:
                return None
            X = np.vstack([X[lam > 1e-6], Y])
        keep = lam > 1e-9
        pts, w = X[keep] @ R.T + r, lam[keep]
        if curved:
            pass
        else:       # the points themselves, exactly
            pts = np.array([c for c, _ in ps])[keep]
        if len(w) > 60:
            pts, w = thin(pts, w, sphere)
        return {"pts": [[rat(x) for x in p] for p in pts], "w": [rat(x) for x in w]}
    except Exception:
        return None


def thin(pts, w, sphere):
    """Caratheodory: few points with the same weighted first and second moments."""
    d = pts.shape[1]
    F = [np.ones(len(w))] + [pts[:, i] for i in range(d)] + [pts[:, i] * pts[:, j] for i in range(d) for j in range(i, d)]
    A = np.array(F)
    sc = np.max(np.abs(A), axis=1)
    sc[sc == 0] = 1
    A = A / sc[:, None]
    x, _ = scipy.optimize.nnls(A, A @ w)
    keep = x > 0
    return pts[keep], x[keep]


def facets(V):
    """Inequalities a . x <= b of the hull of V in its affine hull (floating point)."""
    r = V[0]
    _, s, Vt = np.linalg.svd(V - r)
    k = int(np.sum(s > 1e-9 * max(s[0], 1e-300)))
    R = Vt[:k].T
    P = (V - r) @ R
    if k == 1:
        A, b = np.array([[1.0], [-1.0]]), np.array([P.max(), -P.min()])
    else:
        h = scipy.spatial.ConvexHull(P)
        e = np.unique(np.round(h.equations, 10), axis=0)
        A, b = e[:, :-1], -e[:, -1]
        b = np.array([np.max(P @ a) for a in A])
    return r, R, P, A, b


def in_certificate(V, sphere):
    try:
        r, R, P, A, b = facets(V)
        k = R.shape[1]
        sc = np.max(np.abs(b))
        b1 = b / sc
        c = cp.Variable(k)
        if sphere:
            x = cp.Variable()
            con = [A @ c + x * np.linalg.norm(A, axis=1) <= b1]
            pr = cp.Problem(cp.Maximize(x), con)
            pr.solve(solver=SOLVER)
            lam = np.maximum(con[0].dual_value, 0)
            # exact multipliers: sum lam a = 0, sum lam |a| = 1 on the active constraints
            act = np.abs(b1 - A @ c.value - x.value * np.linalg.norm(A, axis=1)) < 1e-5
            M = np.vstack([A[act].T, np.linalg.norm(A[act], axis=1)[None]])
            l, res = scipy.optimize.nnls(M, np.append(np.zeros(k), 1.0))
            if res > 1e-7:
                return None
            idx = np.nonzero(act)[0]
            Y = np.zeros((len(idx), k))
        else:
            B = cp.Variable((k, k), PSD=True)
            con = [cp.norm2(B @ a) + a @ c <= bb for a, bb in zip(A, b1)]
            cp.Problem(cp.Maximize(cp.log_det(B)), con).solve(solver=SOLVER)
            Bv, cv = B.value, c.value
            act = np.array([bb - a @ cv - np.linalg.norm(Bv @ a) < 1e-4 for a, bb in zip(A, b1)])
            idx = np.nonzero(act)[0]
            Y = np.array([Bv @ A[i] / np.linalg.norm(Bv @ A[i]) for i in idx])
            iu = [(i, j) for i in range(k) for j in range(i, k)]
            Bi = np.linalg.inv(Bv)
            M = np.array([[0.5 * (A[n][i] * y[j] + A[n][j] * y[i]) for i, j in iu] + list(A[n]) for n, y in zip(idx, Y)]).T
            t = np.array([Bi[i, j] for i, j in iu] + [0.0] * k)
            w = np.array([1.0] * len(iu) + [np.max(np.abs(Bi))] * k)
            l, res = scipy.optimize.nnls(M * w[:, None], t * w)
            if res > 1e-4 * np.max(np.abs(t)):
                return None
            Y = Y * (1 - 1e-9)
        out = []
        for n, y, m in zip(idx, Y, l):
            if m <= 0:
                continue
            a = R @ A[n]
            out.append((a, b[n], m, R @ y, r @ a))
        # inflate b so that the inequality is exactly valid at every vertex
        V = np.array(V)
        res = []
        for a, bb, m, y, _ in out:
            bx = max(sum(fr(rat(p)) * fr(rat(q)) for p, q in zip(a, v)) for v in V) + fr(rat(1e-12 * np.max(np.abs(V))))
            res.append({"a": [rat(x) for x in a], "b": rat(bx), "l": rat(m), "y": [rat(x) for x in y]})
        return res or None
    except Exception:
        return None


# ------------------------------------------------------------------ operations
def mbe_obs(ell, ps, sphere):
    return {"ell": read_ell(ell), "ts": multipliers(ell, ps), "cert": certificate(ps, sphere) or []}


def opt_mbe(env, e):
    sphere = e.get("sphere", False)
    kw = {"solver": SOLVER}
    if "sphere" in e:
        kw["sphere"] = sphere
    if "rcond" in e:
        kw["rcond"] = num(e["rcond"])
    if e["src"] == "body":
        b = env.get(e["of"])
        ps = [parts(s) for s in b.shapes]
        r = b.mbes(**kw)
        return {"ells": [mbe_obs(x, p, sphere) for x, p in zip(r.shapes, ps)] if len(r.shapes) == len(ps) else [],
                "params": read_par(r.params)}
    if e["src"] == "shape":
        s = env.get(e["of"])
        ps = parts(s)
        return mbe_obs(s.mbe(**kw), ps, sphere)
    if e["src"] == "points":
        P = arr(e["pts"], e.get("ty", "f"))
        ps = [(np.array([float(fr(x)) for x in p]), np.zeros((len(p),) * 2)) for p in e["pts"]]
        # certificate points must be the exact points
        r = rg.mbe_of_points(P, **kw)
        o = mbe_obs(r, ps, sphere)
        if o["cert"]:
            ex = {tuple(rat(float(fr(x))) for x in p): p for p in e["pts"]}
            o["cert"]["pts"] = [ex[tuple(p)] for p in o["cert"]["pts"]]
        return o
    es = [env.get(x) for x in e["xs"]]
    ps = [parts(x)[0] for x in es]
    return mbe_obs(rg.mbe_of_ellipsoids(es, **kw), ps, sphere)


def opt_mie(env, e):
    s = env.get(e["of"])
    sphere = e.get("sphere", False)
    kw = {"solver": SOLVER}
    if "sphere" in e:
        kw["sphere"] = sphere
    if "rcond" in e:
        kw["rcond"] = num(e["rcond"])
    V = np.array(s.vertices, dtype=float)
    return {"ell": read_ell(s.mie(**kw)), "cert": in_certificate(V, sphere) or []}


def opt_ellin(env, e):
    s, x = env.get(e["of"]), env.get(e["x"])
    c, B = parts(x)[0]
    he, R, c0 = s.half_extents, s.rotation, s.center
    G, w = (R.T @ B) / he[:, None], (R.T @ (c - c0)) / he
    t = multiplier(G, w, tol=-1e-3)
    Y = farthest(R @ np.diag(1.0 / he**2) @ R.T, c0, (c, B * (1 - 1e-9)), np.random.default_rng(0))
    g = np.linalg.norm((Y - c0) @ R / he, axis=1)
    wit = Y[np.argsort(-g)[:2]]
    try:
        ans = enc(s.contains_ellipsoid(x, solver=SOLVER))
    except cp.error.SolverError:
        ans = enc(None)          # the solver gave up and said so: no answer, tolerated unless the answer is clearly yes
    return {"ans": ans, "mult": rat(t), "wit": [[rat(v) for v in y] for y in wit]}


def opt_support(env, e):
    s = env.get(e["of"])
    D = [np.array([float(fr(x)) for x in d]) for d in e["dirs"]]
    n, d = len(D), len(D[0])
    batch = e.get("batch", False)
    P = cp.Variable((n, d)) if batch else cp.Variable(d)
    con = []
    if e.get("var"):
        sc = cp.Variable(**({"pos": True} if e["var"] == "pos" else {})) if e["var"] != "vec" else cp.Variable(1)
        con += [sc >= num(e["lo"]), sc <= num(e["hi"])]
        kw = {"scale": sc}
    elif "lo" in e:
        sc = None
        kw = {"scale": num(e["lo"], e.get("ty", "f"))}
        if e.get("param"):
            prm = cp.Parameter(nonneg=True)
            prm.value = num(e["lo"])
            kw = {"scale": prm}
    else:
        sc, kw = None, {}
    con += s.must_contain(P, **kw)
    obj = cp.sum([D[i] @ P[i] for i in range(n)]) if batch else D[0] @ P
    if batch:
        obj = sum(D[i] @ P[i] for i in range(n))
    pr = cp.Problem(cp.Maximize(obj), con)
    pr.solve(solver=SOLVER)
    st = "optimal" if pr.status in ("optimal", "optimal_inaccurate") else pr.status
    if P.value is None:
        return {"status": enc(st), "pts": enc(None), "scale": enc(None)}
    v = P.value if batch else P.value[None]
    scv = num(e.get("lo", "1")) if sc is None else float(np.asarray(sc.value).reshape(()))
    return {"status": enc(st), "pts": enc(v), "scale": enc(scv)}


def opt_closest(env, e):
    r = rg.closest_points(env.get(e["x"]), env.get(e["y"]), solver=SOLVER)
    return {"p1": enc(r.p1), "p2": enc(r.p2), "dist": enc(r.dist)}


OPS = {"opt.mbe": opt_mbe, "opt.mie": opt_mie, "opt.ellin": opt_ellin, "opt.support": opt_support, "opt.closest": opt_closest}
