"""Operations on shapes."""
import numpy as np
import rigeo as rg
from enc import enc
from .base import arr, num, conv, rot, vec, rigid_kwargs, fr, quat_rot


def kind(s):
    # the most specific public class
    for k, c in (("box", rg.Box), ("ell", rg.Ellipsoid), ("cyl", rg.Cylinder), ("cap", rg.Capsule), ("poly", rg.ConvexPolyhedron)):
        if isinstance(s, c):
            return k
    return type(s).__name__


def read_shape(s):
    k = kind(s)
    o = {"kind": enc(k)}
    g = lambda *fs: o.update({f: enc(getattr(s, f)) for f in fs})
    if k == "box":
        g("half_extents", "center", "rotation", "side_lengths", "volume", "diaglen", "vertices", "A", "b")
    elif k == "ell":
        g("half_extents", "center", "rotation")
    elif k == "cyl":
        g("length", "radius", "center", "rotation", "volume", "longitudinal_axis", "transverse_axes")
        o["endpoints"] = enc(s.endpoints())
    elif k == "cap":
        g("radius", "center", "rotation", "full_length")
        o["length"] = enc(s.inner_length)
        o["endpoints"] = enc(s.cylinder.endpoints())
    elif k == "poly":
        g("vertices", "nv", "dim")
    return o


def pose_kwargs(e):
    ty = e.get("ty", "f")
    kw = {}
    if "c" in e:
        kw["center"] = arr(e["c"], ty)
    if "q" in e or "R" in e:
        kw["rotation"] = rot(e, ty)
    return kw


def _exact_R(e, n):
    if "q" in e:
        return np.array([[float(v) for v in r] for r in quat_rot(e["q"])])
    if "R" in e:
        return np.array(conv(e["R"]))
    return np.eye(n)


def shape_new(env, e):
    ty = e.get("ty", "f")
    how = e["how"]
    kw = pose_kwargs(e)
    if how == "box":
        s = rg.Box(arr(e["he"], ty), **kw)
    elif how == "cube":
        s = rg.Box.cube(num(e["a"], ty), **kw)
    elif how == "side_lengths":
        s = rg.Box.from_side_lengths(arr(e["sl"], ty), **kw)
    elif how == "two_vertices":
        s = rg.Box.from_two_vertices(arr(e["v1"], ty), arr(e["v2"], ty))
    elif how == "points_to_bound":
        s = rg.Box.from_points_to_bound(arr(e["pts"], ty))
    elif how == "ell":
        he = arr(e["he"], ty)
        if e.get("scalar") and len(e["he"]) == 1:
            he = num(e["he"][0], ty)
            if "c" in e:
                kw["center"] = num(e["c"][0], ty)
        s = rg.Ellipsoid(he, **kw)
    elif how == "sphere":
        s = rg.Ellipsoid.sphere(num(e["r"], ty), **kw)
    elif how == "shape_matrix":
        n = len(e["he"])
        R = _exact_R(e, n)
        S = R @ np.diag([0.0 if h == "0" else 1 / float(fr(h)) ** 2 for h in e["he"]]) @ R.T
        kw.pop("rotation", None)
        s = rg.Ellipsoid.from_shape_matrix(S, **kw)
    elif how == "affine":
        n = len(e["he"])
        R = _exact_R(e, n)
        A = R @ np.diag([1 / float(fr(h)) for h in e["he"]]) @ R.T
        c = arr(e["c"]) if "c" in e else np.zeros(n)
        s = rg.Ellipsoid.from_affine(A, -A @ c)
    elif how == "cyl":
        s = rg.Cylinder(length=num(e["L"], ty), radius=num(e["r"], ty), **kw)
    elif how == "cap":
        cyl = rg.Cylinder(length=num(e["L"], ty), radius=num(e["r"], ty), **kw)
        s = rg.Capsule(cyl) if e.get("ctor") else cyl.capsule()
    elif how == "poly":
        if "prune" in e:
            s = rg.ConvexPolyhedron.from_vertices(arr(e["V"], ty), prune=e["prune"])
        else:
            s = rg.ConvexPolyhedron.from_vertices(arr(e["V"], ty))
    elif how == "simplex":
        s = rg.ConvexPolyhedron.simplex(arr(e["ext"], ty))
    elif how == "halfspaces":
        hkw = {"prune": e["prune"]} if "prune" in e else {}
        s = rg.ConvexPolyhedron.from_halfspaces(arr(e["A"]), arr(e["b"]), **hkw)
    elif how == "as_poly":
        s = env.get(e["of"]).as_poly()
    elif how == "capsule_of":
        s = env.get(e["of"]).capsule()
    elif how == "rebuild":
        o = env.get(e["of"])
        via = e["via"]
        if via == "shape_matrix":
            s = rg.Ellipsoid.from_shape_matrix(o.S, center=o.center)
        elif via == "affine":
            s = rg.Ellipsoid.from_affine(o.A, o.b)
        elif via == "ctor":
            if isinstance(o, rg.Cylinder):
                s = rg.Cylinder(length=o.length, radius=o.radius, rotation=o.rotation, center=o.center)
            elif isinstance(o, rg.Ellipsoid):
                s = rg.Ellipsoid(half_extents=o.half_extents, rotation=o.rotation, center=o.center)
            else:
                s = rg.Box(half_extents=o.half_extents, rotation=o.rotation, center=o.center)
        elif via == "faces":
            s = rg.ConvexPolyhedron(face_form=o.face_form)
        elif via == "halfspaces":
            s = rg.ConvexPolyhedron.from_halfspaces(o.A, o.b)
        elif via == "span":
            s = rg.ConvexPolyhedron(span_form=o.span_form)
        elif via == "both":
            s = rg.ConvexPolyhedron(face_form=o.face_form, span_form=o.span_form)
        else:
            raise KeyError(via)
    else:
        raise KeyError(how)
    env.put(e["id"], s)


def shape_bad(env, e):
    shape_new(env, {**e, "id": "_bad"})


def shape_transform(env, e):
    env.put(e["id"], env.get(e["of"]).transform(**rigid_kwargs(e)))


def shape_rotc(env, e):
    env.put(e["id"], env.get(e["of"]).rotate_about_center(rot(e)))


def shape_read(env, e):
    return read_shape(env.get(e["of"]))


def _query(f, e):
    ty = e.get("ty", "f")
    kw = {"tol": num(e["tol"])} if "tol" in e else {}
    pts = arr(e["pts"], ty)
    batch = f(pts, **kw)
    single = []
    for p in e["pts"]:
        a = np.asarray(f(arr(p, ty), **kw))
        if a.size != 1:
            raise ValueError("single-point answer has shape %s" % (a.shape,))
        single.append(bool(a.reshape(())))
    return {"batch": enc(batch), "single": {"t": "bools", "v": single, "sh": [len(single)]}}


def shape_contains(env, e):
    return _query(env.get(e["of"]).contains, e)


def shape_on_surface(env, e):
    return _query(env.get(e["of"]).on_surface, e)


def shape_contains_poly(env, e):
    kw = {"tol": num(e["tol"])} if "tol" in e else {}
    return {"ans": enc(env.get(e["of"]).contains_polyhedron(env.get(e["poly"]), **kw))}


def shape_same(env, e):
    kw = {"tol": num(e["tol"])} if "tol" in e else {}
    return {"ans": enc(env.get(e["x"]).is_same(env.get(e["y"]), **kw))}


def shape_aabb(env, e):
    env.put(e["id"], env.get(e["of"]).aabb())


def shape_mbb(env, e):
    env.put(e["id"], env.get(e["of"]).mbb())


def ell_reps(env, e):
    x = env.get(e["of"])
    o = {f: enc(getattr(x, f)) for f in ("S", "E", "A", "b", "Q", "rank", "volume", "dim")}
    o["degenerate"] = enc(x.is_degenerate())
    return o


def shape_mib(env, e):
    env.put(e["id"], env.get(e["of"]).mib())


OPS = {
    "shape.new": shape_new, "shape.bad": shape_bad, "shape.transform": shape_transform, "shape.rotc": shape_rotc,
    "shape.read": shape_read, "shape.contains": shape_contains, "shape.on_surface": shape_on_surface,
    "shape.contains_poly": shape_contains_poly, "shape.same": shape_same, "shape.aabb": shape_aabb,
    "shape.mbb": shape_mbb, "shape.mib": shape_mib, "ell.reps": ell_reps,
}
