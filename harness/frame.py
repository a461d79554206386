"""Observation of everything a call must leave alone.

In frame mode the interpreter surrounds every public callable of the library with a recorder: the arrays and lists
passed to an outermost call and the arrays it returned are remembered with a copy of their contents, and every live
object is projected onto its public observations after every event.  Only what is no longer bitwise what it was is
put in the record; the specification (spec/Frame.tla) decides whether it may differ.
"""
import copy
import functools
import inspect
import sys

import numpy as np

from enc import enc

DEPTH = [0]
ARGS, RESULTS = [], []
LIMIT = 4000


def arrays(x, depth=0):
    """Mutable containers of numbers in an argument, outermost first."""
    if isinstance(x, np.ndarray) and x.dtype != object:
        yield x
    elif isinstance(x, (list, dict)) and depth < 3:
        yield x
        for y in (x if isinstance(x, list) else x.values()):
            yield from arrays(y, depth + 1)
    elif isinstance(x, tuple) and depth < 3:
        for y in x:
            yield from arrays(y, depth + 1)


def snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return x[:100000]
    return dict(x)


def flat(x):
    """Contents of a tracked container as a sequence of tokens."""
    if isinstance(x, np.ndarray):
        return tokens(enc(x))
    if isinstance(x, list):
        return ["len", str(len(x))] + [token(y) for y in x[:400]]
    return [t for k in sorted(x, key=str) for t in (str(k), token(x[k]))]


def token(y):
    if isinstance(y, (bool, int, float, np.number, np.bool_)):
        return enc(y)["v"] if not isinstance(y, (bool, np.bool_)) else str(bool(y))
    if isinstance(y, str):
        return y
    return "id%d" % id(y)


def unchanged(x, c):
    if isinstance(x, np.ndarray):
        return x.shape == c.shape and x.dtype == c.dtype and x.tobytes() == c.tobytes()
    if isinstance(x, list):
        return len(x) == len(c) and all(a is b for a, b in zip(x, c))
    return x.keys() == c.keys() and all(x[k] is c[k] for k in x)


def remember(store, name, x):
    for y in arrays(x):
        if len(store) >= LIMIT:
            del store[:LIMIT // 2]
        store.append([name, y, snap(y)])


def wrapper(f, name, own):
    @functools.wraps(f)
    def g(*a, **k):
        if DEPTH[0]:
            return f(*a, **k)
        for x in a[1:] if own else a:
            remember(ARGS, name, x)
        for x in k.values():
            remember(ARGS, name, x)
        DEPTH[0] += 1
        try:
            r = f(*a, **k)
        finally:
            DEPTH[0] -= 1
        if not inspect.isgenerator(r):
            remember(RESULTS, name, r)
        return r
    return g


DUNDER = {"__init__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__neg__", "__matmul__", "__call__"}


def install():
    """Surround the public functions and methods of every module of the library."""
    import rigeo  # noqa: F401

    mods = [m for n, m in list(sys.modules.items()) if n == "rigeo" or n.startswith("rigeo.")]
    done = {}
    for m in mods:
        for n, v in list(vars(m).items()):
            if n.startswith("_") or not getattr(v, "__module__", "").startswith("rigeo"):
                continue
            if inspect.isclass(v):
                if v not in done:
                    done[v] = v
                    install_class(v)
            elif inspect.isfunction(v):
                if v not in done:
                    done[v] = wrapper(v, v.__name__, False)
                setattr(m, n, done[v])


def install_class(c):
    for n, v in list(vars(c).items()):
        if n.startswith("_") and n not in DUNDER:
            continue
        name = f"{c.__name__}.{n}"
        if isinstance(v, staticmethod):
            w = staticmethod(wrapper(v.__func__, name, False))
        elif isinstance(v, classmethod):
            w = classmethod(wrapper(v.__func__, name, True))
        elif isinstance(v, property):
            w = property(wrapper(v.fget, name, True), v.fset, v.fdel, v.__doc__)
        elif inspect.isfunction(v):
            if inspect.isgeneratorfunction(v):
                continue
            w = wrapper(v, name, True)
            if getattr(v, "__isabstractmethod__", False):
                w.__isabstractmethod__ = True
        else:
            continue
        try:
            setattr(c, n, w)
        except (AttributeError, TypeError):
            pass


# ---------------------------------------------------------------- projections
def tokens(x):
    """A recorded observation as a flat sequence of strings."""
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in tokens(x[k])]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in tokens(y)]
    return [str(x)]


PROBES = np.array([[0.0, 0, 0], [0.5, 0, 0], [0, -0.25, 0.5], [1, 1, 1], [-2, 3, 0.5]])


def get(f):
    DEPTH[0] += 1          # the projection itself is no call of the session
    try:
        return tokens(enc(f()))
    except Exception as ex:
        return ["raises " + type(ex).__name__]
    finally:
        DEPTH[0] -= 1


def attrs(x, names):
    return [t for n in names for t in get(lambda: getattr(x, n))]


def project(x):
    """Public observations of an object."""
    import rigeo as rg
    from rigeo.moment import MomentMatrix, Polynomial
    from rigeo.polydd import FaceForm, SpanForm
    from rigeo.spatial import SpatialVector

    k = type(x).__name__
    if isinstance(x, rg.InertialParameters):
        return [k] + attrs(x, ("mass", "h", "com", "H", "Hc", "I", "Ic", "J", "M", "vec")) + get(x.consistent)
    if isinstance(x, rg.RigidBody):
        return [k, str(len(x.shapes))] + [t for s in x.shapes[:40] for t in project(s)] + project(x.params)
    if isinstance(x, rg.ConvexPolyhedron) or isinstance(x, (rg.Ellipsoid, rg.Cylinder, rg.Capsule)):
        names = ("dim", "nv", "nf", "vertices", "A", "b") if isinstance(x, rg.ConvexPolyhedron) else ()
        if isinstance(x, rg.Box):
            names += ("half_extents", "side_lengths", "center", "rotation", "volume", "diaglen")
        elif isinstance(x, rg.Ellipsoid):
            names = ("dim", "half_extents", "half_extents_inv", "center", "rotation", "S", "E", "A", "b", "Q", "rank", "volume")
        elif isinstance(x, rg.Cylinder):
            names = ("length", "radius", "center", "rotation", "longitudinal_axis", "volume")
        elif isinstance(x, rg.Capsule):
            names = ("inner_length", "full_length", "radius", "center", "rotation")
        out = [k] + attrs(x, names)
        d = x.dim if hasattr(x, "dim") else 3
        if 1 <= d <= 3:
            out += get(lambda: x.contains(PROBES[:, :d].copy()))
        if isinstance(x, rg.Cylinder):
            out += get(x.endpoints)
            for s in list(x.disks) + list(getattr(x, "disk0s", [])):
                out += project(s)
            out += attrs(x, ("transverse_axes",))
        if isinstance(x, rg.Capsule):
            out += project(x.cylinder) + [t for s in x.caps for t in project(s)]
        if isinstance(x, rg.Box):
            out += get(lambda: x.on_surface(PROBES[:, :d].copy()))
        if isinstance(x, rg.ConvexPolyhedron):
            out += project(x.face_form) + project(x.span_form)
        return out
    if isinstance(x, FaceForm):
        return [k] + attrs(x, ("A", "b", "nf", "dim"))
    if isinstance(x, SpanForm):
        return [k] + attrs(x, ("vertices", "rays", "nv", "nr", "dim"))
    if isinstance(x, SpatialVector):
        return [k] + attrs(x, ("vec", "linear", "angular"))
    if isinstance(x, Polynomial):
        return [k] + [t for i in sorted(x.coefficients, key=lambda m: m.value) for t in [str(i.value)] + get(lambda: x.coefficients[i])]
    if isinstance(x, MomentMatrix):
        return [k, str(x.n), str(x.d), str(x.r), str(x.shape)] + [str(getattr(i, "value", i)) for i in np.ravel(x.indices)]
    if isinstance(x, np.ndarray):
        return [k] + tokens(enc(x))
    return [k]


# ---------------------------------------------------------------- per event
STATEFUL = ("rnd.", "rng.", "par.random")
MUTABLE = ("Generator",)


class Frame:
    """State of one session: projections of the live objects."""

    def __init__(self):
        self.proj = {}
        ARGS.clear()
        RESULTS.clear()

    def after(self, env, ev, obs, exc, again):
        """The frame record of an event that was just executed; again() performs it a second time."""
        fr = {"new": [], "chg": [], "args": [], "res": [], "rep": []}
        if not exc and not (ev["op"].startswith(STATEFUL) or ev.get("norep")):
            i = ev.get("id")
            mine = env.h.get(i)
            first = tokens(obs) + (project(mine) if i else [])
            try:
                obs2 = again()
                second = tokens(obs2 if obs2 is not None else obs) + (project(env.h.get(i)) if i else [])
            except Exception as ex:
                second = ["raises " + type(ex).__name__]
            if i:
                env.h[i] = mine
            if first != second:
                fr["rep"] = [[first, second]]
        for n, x in env.h.items():
            if type(x).__name__ in MUTABLE:
                continue
            p = project(x)
            if n not in self.proj:
                fr["new"].append([n, p])
            elif self.proj[n] != p:
                fr["chg"].append([n, p])
            self.proj[n] = p
        for key, store in (("args", ARGS), ("res", RESULTS)):
            for t in store:
                if not unchanged(t[1], t[2]):
                    fr[key].append([t[0], flat(t[2]), flat(t[1])])
                    t[2] = snap(t[1])
        return fr
