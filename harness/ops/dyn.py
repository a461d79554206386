"""Densities, wrenches, spatial vectors and matrix helpers."""
import numpy as np
import cvxpy as cp
import rigeo as rg
from rigeo import util, constraint
from rigeo.spatial import SpatialVector as SV
from enc import enc
from .base import arr, num, rot, rigid_kwargs, fr


def dens(env, e):
    s = env.get(e["of"])
    f = {"uniform": "uniform_density_params", "hollow": "hollow_density_params", "wireframe": "wireframe_density_params"}[e["how"]]
    env.put(e["id"], getattr(s, f)(num(e["m"], e.get("ty", "f"))))


def dens_vertex(env, e):
    s = env.get(e["of"])
    env.put(e["id"], s.vertex_point_mass_params(num(e["m"], e.get("ty", "f")) if "m" in e else arr(e["ms"], e.get("ty", "f"))))
    return {"vertices": enc(s.vertices)}


def wrench(env, e):
    p, V, A = env.get(e["of"]), env.get(e["V"]), env.get(e["A"])
    w = p.body_wrench(V, A)
    Y = rg.RigidBody.regressor(V, A)
    return {"angular": enc(w.angular), "linear": enc(w.linear), "vec": enc(w.vec), "Y": enc(Y), "Yvec": enc(Y @ p.vec)}


def util_op(env, e):
    f, ty = e["f"], e.get("ty", "f")
    o = {}
    if f == "vech":
        o["r"] = enc(util.vech(arr(e["A"], ty), **({"k": e["k"]} if e["k"] or e.get("kx") else {})))
    elif f == "vech_unvech":
        o["r"] = enc(util.unvech(util.vech(arr(e["A"], ty))))
    elif f == "unvech":
        A = util.unvech(arr(e["a"], ty))
        o["r"], o["back"] = enc(A), enc(util.vech(A))
    elif f == "tri":
        x = num(e["x"], ty)
        t, n = util.is_triangular_number(x)
        o["tri"], o["n"] = enc(t), enc(n)
    elif f == "skew3":
        a, b = arr(e["a"], ty), arr(e["b"], ty)
        K = util.skew3(a)
        o["r"], o["cross"] = enc(K), enc(K @ b)
    elif f == "lift3":
        L = util.lift3(arr(e["a"], ty))
        o["L"], o["r"] = enc(L), enc(L @ util.vech(arr(e["A"], ty)))
    elif f == "lift6":
        o["L"] = enc(util.lift6(SV(linear=arr(e["lin"], ty), angular=arr(e["ang"], ty))))
    elif f == "H2I":
        A = arr(e["A"], ty)
        o.update(I=enc(rg.H2I(A)), H=enc(rg.I2H(A)), IH=enc(rg.I2H(rg.H2I(A))), HI=enc(rg.H2I(rg.I2H(A))))
    elif f == "tmat":
        kw = rigid_kwargs(e)
        if e["d"] != 3 or e.get("dx"):
            kw["dim"] = e["d"]
        T, Ti = util.transform_matrix(**kw), util.transform_matrix_inv(**kw)
        o.update(T=enc(T), Ti=enc(Ti), TTi=enc(T @ Ti), Tp=enc(T @ np.append(arr(e["p"]), 1.0)))
    elif f == "clean":
        kw = rigid_kwargs(e)
        R, t = util.clean_transform(kw.get("rotation"), kw.get("translation"), **({"dim": e["d"]} if e["d"] != 3 or e.get("dx") else {}))
        o.update(R=enc(R), tr=enc(t))
    elif f == "box_vertices":
        o["r"] = enc(util.box_vertices(arr(e["he"], ty)))
    elif f == "contact":
        J = util.contact_jacobian(arr(e["a"], ty))
        o.update(J=enc(J), w=enc(J @ arr(e["b"], ty)))
    elif f == "schur":
        A, B, C = arr(e["A"], ty), arr(e["B"], ty), arr(e["C"], ty)
        if e.get("scalar") in ("A", "both"):
            A = float(A[0][0])
        if e.get("scalar") in ("C", "both"):
            C = float(C[0][0])
        if e.get("expr"):
            def var(x):
                x = np.asarray(x, dtype=float)
                v = cp.Variable(x.shape)
                v.value = x
                return v
            A, B, C = [var(x) if k in e["expr"] else x for k, x in zip("ABC", (A, B, C))]
        r = constraint.schur(A, B, C)
        o["r"] = enc(getattr(r, "value", r))
    elif f == "pimvec":
        v = arr(e["v"], ty)
        o["r"] = enc(rg.InertialParameters.from_vec(v).J)
        o["sum"] = enc(sum(A * t for A, t in zip(constraint.pim_sum_vec_matrices(), v)))
        x = cp.Variable(10)
        x.value = np.asarray(v, dtype=float)
        r = constraint.pim_must_equal_vec(x if e.get("expr") else v)
        o["expr"] = enc(getattr(r, "value", r))
    elif f == "times":
        kw = {"step": num(e["st"], ty)} if "st" in e and not e.get("dflt") else {}
        n, t = util.compute_evaluation_times(num(e["dur"], ty), **kw)
        o.update(n=enc(n), times=enc(t))
    elif f == "rmse":
        kw = {"W": np.eye(6)} if e.get("W") else {}
        o["r"] = enc(util.validation_rmse(arr(e["Ys"], ty), arr(e["ws"], ty), arr(e["th"], ty), **kw))
    else:
        raise KeyError(f)
    return o


def sv_new(env, e):
    kw = {}
    if "ang" in e:
        kw["angular"] = arr(e["ang"], e.get("ty", "f"))
    if "lin" in e:
        kw["linear"] = arr(e["lin"], e.get("ty", "f"))
    env.put(e["id"], SV(**kw))


def sv_vec(env, e):
    env.put(e["id"], SV.from_vec(arr(e["v"], e.get("ty", "f"))))


def sv_zero(env, e):
    env.put(e["id"], SV.zero())


def sv_add(env, e):
    env.put(e["id"], env.get(e["x"]) + env.get(e["y"]))


def sv_sub(env, e):
    env.put(e["id"], env.get(e["x"]) - env.get(e["y"]))


def sv_mul(env, e):
    env.put(e["id"], env.get(e["x"]) * num(e["a"], e.get("ty", "f")))


def sv_div(env, e):
    env.put(e["id"], env.get(e["x"]) / num(e["a"], e.get("ty", "f")))


def sv_read(env, e):
    x = env.get(e["of"])
    return {"angular": enc(x.angular), "linear": enc(x.linear), "vec": enc(x.vec), "adjoint": enc(x.adjoint())}


OPS = {"dens": dens, "dens.vertex": dens_vertex, "wrench": wrench, "util": util_op, "sv.new": sv_new, "sv.vec": sv_vec,
       "sv.zero": sv_zero, "sv.add": sv_add, "sv.sub": sv_sub, "sv.mul": sv_mul, "sv.div": sv_div, "sv.read": sv_read}
