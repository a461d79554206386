"""Span forms, face forms, convex hulls and intersections."""
from fractions import Fraction
import numpy as np
import rigeo as rg
from rigeo.polydd import SpanForm, FaceForm, convex_hull
from enc import enc, rat
from .base import arr, rigid_kwargs

LIMIT = 5000


def simplest(x):
    """The rational of small denominator nearest to x (the specification checks that it is close)."""
    x = float(x)
    if not np.isfinite(x):
        return "0"
    f = Fraction(x).limit_denominator(LIMIT)
    if f == 0 and abs(x) > 1e-9:
        f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def qrows(M):
    return [] if M is None else [[simplest(x) for x in r] for r in np.atleast_2d(np.asarray(M, dtype=float))]


def qdir(M):
    if M is None:
        return []
    out = []
    for r in np.atleast_2d(np.asarray(M, dtype=float)):
        m = np.max(np.abs(r)) if len(r) else 0
        out.append([simplest(x / m if m > 0 else x) for x in r])
    return out


def pf_span(env, e):
    ty = e.get("ty", "f")
    kw = {}
    for k, n in (("V", "vertices"), ("R", "rays"), ("L", "span")):
        if k in e:
            kw[n] = arr(e[k], ty if k != "L" or ty not in ("list", "tuple") else "f")
    env.put(e["id"], SpanForm(**kw))


def pf_face(env, e):
    ty = e.get("ty", "f")
    A = arr(e["A"], ty) if e["A"] else np.zeros((0, e["d"]))
    b = arr(e["b"], ty) if e["b"] else np.zeros(0)
    if "Ae" in e:
        env.put(e["id"], FaceForm(A, b, arr(e["Ae"], ty), arr(e["be"], ty)))
    else:
        env.put(e["id"], FaceForm(A, b))


def pf_toface(env, e):
    o = env.get(e["of"])
    env.put(e["id"], o if isinstance(o, FaceForm) else o.to_face_form())


def pf_tospan(env, e):
    o = env.get(e["of"])
    env.put(e["id"], o.to_span_form() if isinstance(o, FaceForm) else o)


def pf_canon(env, e):
    env.put(e["id"], env.get(e["of"]).canonical())


def pf_move(env, e):
    env.put(e["id"], env.get(e["of"]).transform(**rigid_kwargs(e)))


def pf_stack(env, e):
    env.put(e["id"], env.get(e["x"]).stack(env.get(e["y"])))


def pf_read(env, e):
    o = env.get(e["of"])
    if o is None:
        return {"rep": enc("none")}
    if isinstance(o, FaceForm):
        rows = np.hstack((np.asarray(o.b, dtype=float).reshape(-1, 1), -np.asarray(o.A, dtype=float))) if len(o.b) else []
        return {"rep": enc("face"), "A": enc(o.A), "b": enc(o.b), "q": qdir(rows) if len(rows) else [], "nf": enc(o.nf), "dim": enc(o.dim)}
    return {"rep": enc("span"), "V": enc(o.vertices), "R": enc(o.rays), "Vq": qrows(o.vertices), "Rq": qdir(o.rays),
            "bounded": enc(o.bounded()), "is_cone": enc(o.is_cone()), "nv": enc(o.nv), "nr": enc(o.nr), "dim": enc(o.dim)}


def pf_hull(env, e):
    kw = {"rcond": float(e["rcond"])} if "rcond" in e else {}
    return {"r": enc(convex_hull(arr(e["pts"], e.get("ty", "f")), **kw))}


def poly_from(env, e):
    o = env.get(e["of"])
    env.put(e["id"], rg.ConvexPolyhedron(face_form=o) if isinstance(o, FaceForm) else rg.ConvexPolyhedron(span_form=o))


def poly_intersect(env, e):
    a, b = env.get(e["x"]), env.get(e["y"])
    if a is None or b is None:
        env.put(e["id"], None)
        return {"res": enc("none"), "vertices": enc(None)}
    r = a.intersect(b)
    env.put(e["id"], r)
    return {"res": enc("none" if r is None else "poly"), "vertices": enc(None if r is None else r.vertices)}


OPS = {"pf.span": pf_span, "pf.face": pf_face, "pf.toface": pf_toface, "pf.tospan": pf_tospan, "pf.canon": pf_canon, "pf.move": pf_move,
       "pf.stack": pf_stack, "pf.read": pf_read, "pf.hull": pf_hull, "poly.from": poly_from, "poly.intersect": poly_intersect}
