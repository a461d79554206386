"""Argument decoding shared by the operations."""
from fractions import Fraction
import zlib

import numpy as np


INTS = [False]     # whole numbers are passed as Python / numpy integers where nothing else is asked for


class Env:
    """Live objects of one session."""

    def __init__(self, ses):
        INTS[0] = zlib.crc32(ses["name"].encode()) % 4 == 0
        self.h = {}
        self.ses = ses

    def get(self, name):
        return self.h[name]

    def put(self, name, obj):
        self.h[name] = obj


def fr(s):
    return Fraction(s)


def num(s, ty="f"):
    f = Fraction(s)
    if (INTS[0] or ty in ("int", "intlist")) and f.denominator == 1 and abs(f) < 10**6:
        return int(f)
    return float(f)


def conv(x, ty="f"):
    return [conv(y, ty) for y in x] if isinstance(x, list) else num(x, ty)


def arr(x, ty="f"):
    """Array argument.  ty: "f" float array, "int" integer array where possible, "list" nested list of
    floats, "intlist" nested list of ints, "tuple" tuples, "F" Fortran-ordered, "view" non-contiguous."""
    v = conv(x, "int" if ty in ("int", "intlist") else "f")
    if ty in ("list", "intlist"):
        return v
    if ty == "tuple":
        return tuple(tuple(y) if isinstance(y, list) else y for y in v)
    a = np.array(v)
    if a.dtype.kind not in "if" or not a.size:
        a = np.array(v, dtype=float)
    if ty == "int":
        return a
    if ty == "F":
        return np.asfortranarray(a)
    if ty == "view" and a.ndim >= 1 and a.size:
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(0, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    return a


def quat_rot(q):
    """Exact rotation matrix of an integer quaternion, as Fractions (as spec/Lin.tla QuatRot)."""
    w, x, y, z = [Fraction(v) for v in q]
    n = w * w + x * x + y * y + z * z
    return [
        [(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
        [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n],
        [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n],
    ]


def rot(e, ty="f"):
    """Rotation argument of an event or None when omitted."""
    if "q" in e:
        R = [[float(v) for v in row] for row in quat_rot(e["q"])]
        if (INTS[0] or ty in ("int", "intlist")) and all(v == int(v) for row in R for v in row):
            R = [[int(v) for v in row] for row in R]
        return R if ty in ("list", "intlist") else np.array(R)
    if "R" in e:
        return arr(e["R"], ty)
    return None


def vec(e, key, ty="f"):
    return arr(e[key], ty) if key in e else None


def rigid_kwargs(e):
    """Keyword (or positional) arguments of a rigid transform: omitted arguments stay omitted."""
    ty = e.get("ty", "f")
    kw = {}
    if "q" in e or "R" in e:
        kw["rotation"] = rot(e, ty)
    if "t" in e:
        kw["translation"] = arr(e["t"], ty)
    return kw
