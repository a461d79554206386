"""Encoding of values observed from the implementation as exact observations (spec/Obs.tla)."""
from fractions import Fraction
import math
import numbers
import numpy as np


def rat(x):
    """Exact rational string of a number."""
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, numbers.Integral):
        return str(int(x))
    else:
        x = float(x)
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def enc(x):
    """Encode a value as an observation record."""
    if x is None:
        return {"t": "none", "v": "", "sh": []}
    if isinstance(x, str):
        return {"t": "str", "v": x, "sh": []}
    if isinstance(x, Fraction):
        return {"t": "num", "v": rat(x), "sh": []}
    try:
        a = np.asarray(x)
    except Exception as ex:  # ragged or otherwise not an array
        return {"t": "obj", "v": type(x).__name__, "sh": []}
    if a.dtype == object:
        try:
            a = a.astype(float)
        except Exception:
            return {"t": "obj", "v": type(x).__name__, "sh": []}
    if np.iscomplexobj(a):
        if np.any(a.imag != 0):
            return {"t": "obj", "v": "complex", "sh": []}
        a = a.real
    if a.dtype.kind not in "biuf":
        return {"t": "obj", "v": type(x).__name__, "sh": []}
    sh = [int(s) for s in a.shape]
    if a.dtype == bool:
        t = {0: "bool", 1: "bools", 2: "boolmat"}.get(a.ndim, "boolten")
        return {"t": t, "v": a.tolist(), "sh": sh}
    t = {0: "num", 1: "vec", 2: "mat", 3: "ten"}.get(a.ndim, "arr%d" % a.ndim)

    def conv(b):
        return [conv(c) for c in b] if isinstance(b, list) else rat(b)

    return {"t": t, "v": conv(a.tolist()), "sh": sh}
