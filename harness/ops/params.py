"""Operations on inertial parameters and rigid bodies."""
import numpy as np
import rigeo as rg
from enc import enc
from .base import arr, num, conv, rigid_kwargs
from .shapes import read_shape

IP = rg.InertialParameters


def read_params(p):
    o = {"mass": enc(p.mass)}
    for f in ("h", "com", "H", "Hc", "I", "Ic", "J", "M", "vec"):
        o[f] = enc(getattr(p, f))
    return o


def par_new(env, e):
    ty = e.get("ty", "f")
    kw = {}
    for src, dst in (("h", "h"), ("c", "com"), ("H", "H"), ("I", "I")):
        if src in e:
            kw[dst] = arr(e[src], ty)
    if e["tfc"] or e.get("tfc_explicit"):
        kw["translate_from_com"] = e["tfc"]
    env.put(e["id"], IP(num(e["m"], ty), **kw))


def par_vec(env, e):
    env.put(e["id"], IP.from_vec(arr(e["v"], e.get("ty", "f"))))


def par_pim(env, e):
    env.put(e["id"], IP.from_pim(arr(e["J"], e.get("ty", "f"))))


def par_pm(env, e):
    ty = e.get("ty", "f")
    env.put(e["id"], IP.from_point_masses(masses=arr([m for m, _ in e["pm"]], ty), points=arr([p for _, p in e["pm"]], ty)))


def par_zero(env, e):
    env.put(e["id"], IP.zero())


def par_random(env, e):
    p = IP.random(rng=e["seed"])
    env.put(e["id"], p)
    return read_params(p)


def par_conv(env, e):
    p = env.get(e["of"])
    r = e["route"]
    if r == "vec":
        q = IP.from_vec(p.vec)
    elif r == "pim":
        q = IP.from_pim(p.J)
    elif r == "hH":
        q = IP(p.mass, h=p.h, H=p.H)
    elif r == "cH":
        q = IP(p.mass, com=p.com, H=p.H)
    elif r == "hI":
        q = IP(p.mass, h=p.h, I=p.I)
    elif r == "cI":
        q = IP(mass=p.mass, com=p.com, I=p.I)
    elif r == "hHc":
        q = IP(p.mass, h=p.h, H=p.Hc, translate_from_com=True)
    elif r == "cIc":
        q = IP(p.mass, com=p.com, I=p.Ic, translate_from_com=True)
    elif r == "hIc":
        q = IP(p.mass, h=p.h, I=p.Ic, translate_from_com=True)
    elif r == "cHc":
        q = IP(p.mass, com=p.com, H=p.Hc, translate_from_com=True)
    elif r == "I2H":
        q = IP(p.mass, h=p.h, H=rg.I2H(rg.H2I(rg.I2H(p.I))))
    elif r == "pimvec":
        # the linear map from parameter vectors to pseudo-inertia matrices
        q = IP.from_pim(sum(A * t for A, t in zip(rg.pim_sum_vec_matrices(), p.vec)))
    elif r == "pimexpr":
        import cvxpy as cp

        v = cp.Variable(10)
        v.value = p.vec
        q = IP.from_pim(rg.pim_must_equal_vec(v).value)
    else:
        raise KeyError(r)
    env.put(e["id"], q)


def par_read(env, e):
    return read_params(env.get(e["of"]))


def par_transform(env, e):
    env.put(e["id"], env.get(e["of"]).transform(**rigid_kwargs(e)))


def par_add(env, e):
    env.put(e["id"], env.get(e["x"]) + env.get(e["y"]))


def par_sum(env, e):
    xs = [env.get(x) for x in e["xs"]]
    how = e.get("how", "sum")
    if how == "sum":
        r = sum(xs)
    elif how == "sumzero":
        r = sum(xs, IP.zero())
    elif how == "gen":
        r = sum(x for x in xs)
    else:
        raise KeyError(how)
    env.put(e["id"], r)


def par_consistent(env, e):
    p = env.get(e["of"])
    ans = p.consistent(eps=num(e["eps"])) if "eps" in e else p.consistent()
    return {"ans": enc(ans)}


def par_same(env, e):
    return {"ans": enc(env.get(e["x"]).is_same(env.get(e["y"])))}


def body_new(env, e):
    shapes = [env.get(s) for s in e["shapes"]]
    if e.get("bare") and len(shapes) == 1:
        shapes = shapes[0]
    kw = {}
    if "par" in e:
        kw["params"] = env.get(e["par"])
    env.put(e["id"], rg.RigidBody(shapes, **kw))


def body_add(env, e):
    env.put(e["id"], env.get(e["x"]) + env.get(e["y"]))


def body_sum(env, e):
    env.put(e["id"], sum([env.get(x) for x in e["xs"]]))


def body_transform(env, e):
    env.put(e["id"], env.get(e["of"]).transform(**rigid_kwargs(e)))


def body_read(env, e):
    b = env.get(e["of"])
    return {"shapes": [read_shape(s) for s in b.shapes], "params": read_params(b.params)}


OPS = {
    "par.new": par_new, "par.vec": par_vec, "par.pim": par_pim, "par.pm": par_pm, "par.zero": par_zero,
    "par.random": par_random, "par.conv": par_conv, "par.read": par_read, "par.transform": par_transform,
    "par.add": par_add, "par.sum": par_sum, "par.consistent": par_consistent, "par.same": par_same,
    "body.new": body_new, "body.add": body_add, "body.sum": body_sum, "body.transform": body_transform,
    "body.read": body_read,
}
