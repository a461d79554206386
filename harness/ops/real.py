"""Density realizability: optimal values under the generated constraints, and the numeric ellipsoid test."""
from fractions import Fraction
import warnings
import numpy as np
import cvxpy as cp
import rigeo as rg
from enc import enc, rat
from .base import arr, num

FAM = {"sdp": "moment_sdp_constraints", "vertex": "moment_vertex_constraints", "custom": "moment_custom_vertex_constraints",
       "ell": "moment_constraints", "body": "moment_sdp_constraints"}


def variable(fmt):
    """The parameter variable and the pseudo-inertia matrix it stands for (built here, not by the library)."""
    if fmt == "vec":
        th = cp.Variable(10)
        I = [[th[4], th[5], th[6]], [th[5], th[7], th[8]], [th[6], th[8], th[9]]]
        tr = (th[4] + th[7] + th[9]) / 2
        rows = [[(tr if i == j else 0) - I[i][j] for j in range(3)] + [th[1 + i]] for i in range(3)]
        rows.append([th[1], th[2], th[3], th[0]])
        return th, cp.bmat([[cp.reshape(x, (1, 1), order="C") for x in r] for r in rows])
    X = cp.Variable((4, 4), **({"PSD": True} if fmt == "psd" else {"symmetric": True} if fmt == "sym" else {}))
    return X, X


def fvec(v):
    return np.array([float(Fraction(x)) for x in v])


def fmat(M):
    return np.array([fvec(r) for r in M])


def cmat(A, b, k):
    C = np.zeros((4, 4))
    C[:3, :3], C[:3, 3], C[3, :3], C[3, 3] = A, b / 2, b / 2, k
    return C


def jof(pm):
    J = np.zeros((4, 4))
    for m, r in pm:
        v = np.append(fvec(r), 1)
        J += float(Fraction(m)) * np.outer(v, v)
    return J


def solve(prob):
    """(status, value) of an accurate answer; an answer the solver itself calls inaccurate is none ("fail")."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            prob.solve(solver="CLARABEL", time_limit=10.0)
    except cp.error.SolverError:
        return "fail", "none"
    st = prob.status
    if st == "optimal":
        return "ok", prob.value
    if st == "infeasible":
        return "infeasible", "none"
    if st == "unbounded":
        return "ok", "unbounded"
    return "fail", "none"


def real_query(env, e):
    o = env.get(e["of"])
    fam = e["fam"]
    fn = getattr(o, FAM[fam])
    kw = {}
    if "eps" in e:
        kw["eps"] = num(e["eps"])
    if "d" in e:
        kw["d"] = e["d"]
    X, J = variable(e["fmt"])
    cons = fn(X, **kw)
    C, v0, J0 = cp.Parameter((4, 4)), cp.Parameter(), cp.Parameter((4, 4))
    probs = {}

    def prob(k):
        if k not in probs:
            obj = cp.sum(cp.multiply(C, J))
            if k == "max":
                probs[k] = cp.Problem(cp.Maximize(obj), cons + [J[3, 3] == 1])
            elif k == "min":
                probs[k] = cp.Problem(cp.Minimize(obj), cons + [J[3, 3] == 1])
            elif k == "zero":
                probs[k] = cp.Problem(cp.Maximize(cp.trace(J)), cons + [J[3, 3] == 0])
            elif k == "dist":
                probs[k] = cp.Problem(cp.Minimize(cp.norm(J - J0, "fro")), cons)
        return probs[k]

    res = []
    for q in e["qs"]:
        k = q["q"]
        if k in ("com", "sec", "secmin"):
            a, p = fvec(q["a"]), fvec(q["p"])
            C.value = cmat(np.zeros((3, 3)), a, -a @ p) if k == "com" else cmat(np.outer(a, a), -2 * (a @ p) * a, (a @ p) ** 2)
            st, v = solve(prob("min" if k == "secmin" else "max"))
        elif k == "wq":
            R, c, w = fmat(q["R"]), fvec(q["c"]), fvec(q["w"])
            M = R @ np.diag(w) @ R.T
            C.value = cmat(M, -2 * M @ c, c @ M @ c)
            st, v = solve(prob("max"))
        elif k == "quad":
            C.value = cmat(fmat(q["A"]), fvec(q["b"]), 0)
            st, v = solve(prob("max"))
        elif k == "eig":
            u = fvec(q["v"])
            C.value = np.outer(u, u)
            st, v = solve(prob("min"))
        elif k == "asym":
            D = np.zeros((4, 4))
            D[q["i"], q["j"]], D[q["j"], q["i"]] = 1, -1
            C.value = D
            st, v = solve(prob("max"))
        elif k == "zero":
            st, v = solve(prob("zero"))
        elif k == "dist":
            Jq = jof(q["pm"])
            # without a margin the set is a cone: the distance is computed for a matrix of unit size
            unit = 1.0 if float(kw.get("eps", 0)) else max(abs(Jq).max(), 1e-9)
            J0.value = Jq / unit
            st, v = solve(prob("dist"))
            v = v if isinstance(v, str) else v * unit
        elif k == "feas":
            P = cp.Parameter((4, 4), value=jof(q["pm"]))
            pb = o.moment_sdp_feasibility_problem(P, **kw)
            st, v = solve(pb)
        res.append({"st": st, "v": v if isinstance(v, str) else rat(v)})
    return {"r": res}


def ell_can(env, e):
    kw = {"eps": num(e["eps"])} if "eps" in e else {}
    return {"ans": enc(env.get(e["of"]).can_realize(env.get(e["par"]), **kw))}


OPS = {"real.query": real_query, "ell.can": ell_can}
