"""Polynomials, moment matrices, and the order-insensitive comparison of matrices."""
from fractions import Fraction
import numpy as np
import cvxpy as cp
import rigeo as rg
from rigeo.moment import MomentIndex, Polynomial, MomentMatrix
from enc import enc, rat
from .base import arr, num


def key(i, kt):
    if kt == "str" and all(0 <= k <= 9 for k in i):
        return "".join(str(k) for k in i)
    if kt == "idx":
        return MomentIndex(i)
    if kt == "npidx":
        return MomentIndex(np.array(i))
    return tuple(i)


def terms(p):
    return [{"i": [int(k) for k in idx.value], "c": rat(c)} for idx, c in p.coefficients.items()]


def kw_tol(e):
    return {"tol": num(e["tol"])} if "tol" in e else {}


def poly_new(env, e):
    kt = e.get("kt", "tuple")
    c = {key(t["i"], kt): num(t["c"], e.get("ty", "f")) for t in e["s"]}
    env.put(e["id"], Polynomial(c, **kw_tol(e)))


def poly_affine(env, e):
    env.put(e["id"], Polynomial.affine(arr(e["a"], e.get("ty", "f")), num(e["b"]), **kw_tol(e)))


def poly_ones(env, e):
    env.put(e["id"], Polynomial.ones(e["n"], e["d"]))


def poly_zeros(env, e):
    env.put(e["id"], Polynomial.zeros())


def poly_add(env, e):
    env.put(e["id"], env.get(e["x"]) + env.get(e["y"]))


def poly_loc(env, e):
    env.put(e["id"], env.get(e["of"]).localize(MomentIndex(e["i"])))


def poly_read(env, e):
    p = env.get(e["of"])
    ty = e.get("ty", "f")
    deg = p.degree if p.coefficients else None
    str(p), repr(p)
    return {"terms": terms(p), "degree": enc(deg), "vals": [enc(p.evaluate(arr(x, ty))) for x in e["pts"]]}


def poly_basis(env, e):
    b = Polynomial.basis(e["n"], e["d"])
    return {"basis": [[int(k) for k in i.value] for i in b], "dim": int(Polynomial.dim(e["n"], e["d"]))}


def idx_ops(env, e):
    x, y = MomentIndex(e["x"]), MomentIndex(np.array(e["y"]))
    v = lambda i: [int(k) for k in i.value]
    return {"sum": v(x + y), "prod": v(x * y), "total": v(sum([x, y])), "eq": bool(x == y), "samehash": hash(x) == hash(y)}


def matrix(env, e):
    """The moment matrix of a session: one object per size, used by all its events."""
    k = "mm:%d:%d" % (e["n"], e["d"])
    if k not in env.h:
        env.put(k, MomentMatrix(e["n"], e["d"]))
    return env.get(k)


def mm_indices(env, e):
    M = matrix(env, e)
    return {"r": int(M.r), "shape": [int(k) for k in M.shape],
            "idx": [[[int(k) for k in M.indices[i, j].value] for j in range(M.r)] for i in range(M.r)]}


def mm_loc(env, e):
    M = matrix(env, e)
    L = M.localizing_matrix(e["dl"], env.get(e["of"]))
    return {"L": [[terms(p) for p in row] for row in L]}


def fmon(i, r):
    z = Fraction(1)
    for k, x in zip(i, r):
        z *= x**k
    return z


def moments(e, M):
    """Moments of the point masses on the index matrix of M (exact, then rounded), the order being the library's own."""
    pts = [(Fraction(p["m"]), [Fraction(x) for x in p["r"]]) for p in e["pts"]]
    cache = {}
    out = np.zeros((M.r, M.r))
    for i in range(M.r):
        for j in range(M.r):
            v = M.indices[i, j].value
            if v not in cache:
                cache[v] = float(sum(m * fmon(v, r) for m, r in pts))
            out[i, j] = cache[v]
    return out


def mm_numloc(env, e):
    M = matrix(env, e)
    L = M.localize(moments(e, M), env.get(e["of"]))
    return {"L": enc(np.array([[float(getattr(x, "value", x)) for x in row] for row in L], dtype=float))}


def violation(cs):
    return max([float(np.max(np.abs(c.violation()))) if c.violation() is not None else np.nan for c in cs], default=0.0)


def mm_lin(env, e):
    M = matrix(env, e)
    V = cp.Variable(M.shape, symmetric=e.get("sym", True))
    cs = M.moment_constraints(V)
    V.value = moments(e, M) + np.array([[num(x) for x in row] for row in e["dM"]])
    return {"viol": enc(violation(cs))}


def mm_psd(env, e):
    """Distance from the moments to the localising constraints: the smallest total deviation of the equalities."""
    M = matrix(env, e)
    V = cp.Variable(M.shape, symmetric=True)
    cs = M.localizing_constraints(V, [env.get(p) for p in e["ps"]])
    t = cp.Variable()
    prob = cp.Problem(cp.Minimize(cp.sum_squares(V - moments(e, M))), cs)
    prob.solve(solver="CLARABEL")
    if prob.status not in ("optimal", "optimal_inaccurate"):
        return {"dist": enc(np.inf if "infeasible" in prob.status else np.nan)}
    return {"dist": enc(float(np.sqrt(max(prob.value, 0))))}


def tu_unordered(env, e):
    f = lambda x: float("nan") if x == "nan" else float(Fraction(x))
    mk = lambda X, n: np.array([[f(x) for x in r] for r in X], dtype=float).reshape(len(X), n)
    from rigeo.test_util import allclose_unordered

    A, B = mk(e["A"], e["na"]), mk(e["B"], e["nb"])
    if e.get("ty") == "int":
        A, B = A.astype(int), B.astype(int)
    kw = {}
    for k in e["kw"]:
        kw[k] = e["equal_nan"] if k == "equal_nan" else num(e[k])
    return {"ans": enc(allclose_unordered(A, B, **kw))}


OPS = {
    "poly.new": poly_new, "poly.affine": poly_affine, "poly.ones": poly_ones, "poly.zeros": poly_zeros,
    "poly.add": poly_add, "poly.loc": poly_loc, "poly.read": poly_read, "poly.basis": poly_basis, "idx.ops": idx_ops,
    "mm.indices": mm_indices, "mm.loc": mm_loc, "mm.numloc": mm_numloc, "mm.lin": mm_lin, "mm.psd": mm_psd,
    "tu.unordered": tu_unordered,
}
