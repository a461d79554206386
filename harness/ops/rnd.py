"""Random sampling, rejection sampling, sample statistics and grids."""
import hashlib
import pickle
import numpy as np
import rigeo as rg
from rigeo import random as rr
from rigeo.spatial import SpatialVector as SV
from enc import enc, rat
from .base import arr, num


def shape_arg(e):
    if e.get("noshape"):
        return {}
    if e.get("scalar"):
        n = e["shape"][0]
        return {"shape": np.int64(n) if e.get("npint") else n}
    return {"shape": tuple(e["shape"])}


def rows(a, d):
    a = np.asarray(a)
    return enc(a.reshape(-1, d)) if a.size else {"t": "mat", "v": [], "sh": [0, d]}


def call(env, f, e, kw, rng):
    """One sampling call; rng is the value of the rng argument or () when it is omitted."""
    kw = dict(kw)
    if rng != ():
        kw["rng"] = rng
    if f == "points":
        return env.get(e["of"]).random_points(**kw)
    if f == "surface":
        return env.get(e["of"]).random_points_on_surface(**kw)
    if f == "edges":
        return env.get(e["of"]).random_points_on_edges(**kw)
    if f == "hypersphere":
        return rr.random_points_on_hypersphere(dim=e["dim"], **kw)
    if f == "ball":
        return rr.random_points_in_ball(dim=e["dim"], **kw)
    if f == "weights":
        return rr.random_weight_vectors(**{"shape": 3, **kw})
    if f == "psd":
        kw.pop("shape", None)
        return rr.random_psd_matrix(e.get("n", 3), **kw)
    if f == "params":
        kw.pop("shape", None)
        return rg.InertialParameters.random(**kw).vec
    if f == "normal":
        kw.pop("shape", None)
        return SV.random_diag_normal(env.get(e["mean"]), env.get(e["cov"]), **kw).vec
    if f == "reject":
        s = kw.pop("shape", 1)
        return rr.rejection_sample([env.get(e["of"])], env.get(e["box"]), s, **kw)
    raise KeyError(f)


def sample(env, e):
    d = e.get("d")
    r = np.asarray(call(env, e["f"], e, shape_arg(e), e["seed"]))
    sh = [int(s) for s in r.shape]
    return {"sh": sh, "pts": rows(r, sh[-1] if sh and sh[-1] else 1) if sh else enc(r)}


def weights(env, e):
    r = np.asarray(call(env, "weights", e, shape_arg(e), e["seed"]))
    sh = [int(s) for s in r.shape]
    return {"sh": sh, "pts": rows(r, sh[-1])}


def psd(env, e):
    return {"r": enc(call(env, "psd", e, {}, e["seed"]))}


def dig(x):
    a = np.ascontiguousarray(np.asarray(x, dtype=float))
    return hashlib.sha256(repr(a.shape).encode() + a.tobytes()).hexdigest()[:24]


def gstate():
    s = np.random.get_state()
    return hashlib.sha256(pickle.dumps((s[0], s[1].tobytes(), s[2:]))).hexdigest()[:24]


def rng_new(env, e):
    env.put(e["id"], np.random.default_rng(e["seed"]))


def rng_global(env, e):
    if "seed" in e:
        np.random.seed(e["seed"])
    else:
        np.random.rand(3)


def gdig(g):
    return hashlib.sha256(repr(g.bit_generator.state).encode()).hexdigest()[:24]


def rnd_call(env, e):
    a = e["args"]
    rng = e["seed"] if e["src"] == "seed" else env.get(e["gen"]) if e["src"] == "gen" else () if e.get("omit") else None
    o = {"gs0": gstate()}
    if e["src"] == "gen":
        o["st0"] = gdig(rng)
    r = call(env, a["f"], a, shape_arg(a) if "shape" in a else {}, rng)
    o["dig"] = dig(r)
    o["gs1"] = gstate()
    if e["src"] == "gen":
        o["st1"] = gdig(rng)
    return o


# ---------------------------------------------------------------- rejection sampling
def cand(j):
    """The j-th scripted candidate (j = 1, 2, ...): all coordinates are dyadic and distinct."""
    return [j, -j / 4.0, 1.0 + j / 8.0]


class Bound:
    """A bounding shape that hands out scripted candidates, like the shapes of the library: a single point
    comes without the leading axis."""

    dim = 3

    def __init__(self):
        self.n, self.reqs, self.rngs = 0, [], []

    def random_points(self, shape=1, rng=None):
        k = int(np.prod(shape))
        self.reqs.append(k)
        self.rngs.append(rng)
        P = np.array([cand(self.n + i + 1) for i in range(k)]).reshape(-1, 3)
        self.n += k
        if np.isscalar(shape):
            return P[0] if k == 1 else P
        return P[0] if tuple(shape) == (1,) else P.reshape(tuple(shape) + (3,))


class Member:
    dim = 3

    def __init__(self, bits):
        self.bits = bits

    def contains(self, points, tol=1e-8):
        P = np.asarray(points)
        if P.ndim == 1:
            return np.bool_(self.bits[(int(round(P[0])) - 1) % len(self.bits)])
        return np.array([self.bits[(int(round(p[0])) - 1) % len(self.bits)] for p in P], dtype=bool)


def rej_obs(r, cands):
    r = np.asarray(r)
    sh = [int(s) for s in r.shape]
    idx = []
    C = np.asarray(cands, dtype=float).reshape(-1, 3)
    for p in r.reshape(-1, 3):
        w = np.nonzero(np.all(C == p, axis=1))[0]
        idx.append(int(w[0]) + 1 if len(w) else -1)
    return {"sh": sh, "idx": idx}


def rej_script(env, e):
    b = Bound()
    shapes = [Member([bool(x) for x in m]) for m in e["mem"]]
    env._rej = b
    kw = {"rng": e["seed"]} if "seed" in e else {}
    n = e["shape"][0] if e.get("scalar") else tuple(e["shape"]) if not e.get("aslist") else list(e["shape"])
    o = {"reqs": b.reqs, "sh": [], "idx": []}
    try:
        r = rr.rejection_sample(shapes, b, n, max_tries=e["max"], **kw)
    except Exception as ex:
        return Raised(o, ex)
    o.update(rej_obs(r, [cand(i + 1) for i in range(b.n)]))
    return o


class Raised(dict):
    """An observation made although the call raised."""

    def __init__(self, o, ex):
        super().__init__(o)
        self.exc = type(ex).__name__


class Rec:
    """Records what a real bounding shape hands out."""

    def __init__(self, s):
        self.s, self.reqs, self.c = s, [], []

    def __getattr__(self, k):
        return getattr(self.s, k)

    def random_points(self, shape=1, rng=None):
        r = self.s.random_points(shape, rng=rng)
        self.reqs.append(int(np.prod(shape)))
        self.c += np.asarray(r).reshape(-1, 3).tolist()
        return r


def rej_record(env, e):
    b = Rec(env.get(e["box"]))
    n = e["shape"][0] if e.get("scalar") else tuple(e["shape"])
    o = {"reqs": b.reqs, "sh": [], "idx": []}
    try:
        r = rr.rejection_sample([env.get(x) for x in e["shapes"]], b, n, max_tries=e["max"], rng=e["seed"])
    except Exception as ex:
        o["cand"] = rows(np.array(b.c), 3)
        return Raised(o, ex)
    o["cand"] = rows(np.array(b.c), 3)
    o.update(rej_obs(r, b.c))
    return o


# ---------------------------------------------------------------- statistics of many draws
def draw(env, e, rng):
    N, mode = e["N"], e["mode"]
    f = lambda shape: np.asarray(call(env, e["f"], e, {"shape": shape}, rng))
    if mode == "big":
        r = f(N)
        return r.reshape(-1, r.shape[-1])
    if mode == "half":
        r = f(2 * N)
        return r[:N]
    if mode == "shape":
        r = f((N // 8, 2, 4))
        return r.reshape(-1, r.shape[-1])
    if mode == "single":
        return np.array([f(1) for _ in range(N)])
    b, j = e["b"], e["j"]
    return np.array([f((b,))[j] for _ in range(N)])      # one position of many small batches


def local(env, e, X):
    """Normalised local coordinates, by the exact pose given in the event."""
    p = e.get("pose")
    if not p:
        return X
    c = np.array([float(fr_(x)) for x in p["c"]])
    R = np.array([[float(fr_(x)) for x in r] for r in p["R"]])
    he = np.array([float(fr_(x)) for x in p["he"]])
    nz = he > 0
    return ((X - c) @ R)[:, nz] / he[nz]


def fr_(s):
    from fractions import Fraction

    return Fraction(s)


def stats(env, e):
    rng = np.random.default_rng(e["seed"])
    X = draw(env, e, rng)
    U = local(env, e, X)
    n, d = U.shape
    w = np.ones(n)
    k = e["kind"]
    if k == "ellsurf":
        he = np.array([float(fr_(x)) for x in e["pose"]["he"]])
        w = 1.0 / np.sqrt(np.sum((U / he) ** 2, axis=1))
    W = np.sum(w)
    ess = W * W / np.sum(w * w)
    st = {}

    def put(name, v, plain=False):
        if plain:
            st[name] = {"y": rat(float(np.mean(v))), "ess": rat(float(len(v)))}
        else:
            st[name] = {"y": rat(float(np.sum(w * v) / W)), "ess": rat(float(ess))}

    A = np.abs(U)
    for i in range(d):
        put(f"m{i + 1}", U[:, i])
        put(f"q{i + 1}{i + 1}", U[:, i] ** 2)
        put(f"lag{i + 1}", U[1:, i] * U[:-1, i], plain=True)
        put(f"r{i + 1}", U[:, i] ** 4)
        put(f"c{i + 1}", (A[:, i] <= 0.5).astype(float))
        for j in range(i + 1, d):
            put(f"q{i + 1}{j + 1}", U[:, i] * U[:, j])
    o = np.zeros(n, dtype=int)
    for i in range(d):
        o = 2 * o + (U[:, i] > 0)
    for m in range(2**d):
        put(f"o{m}", (o == m).astype(float))
    nr = np.linalg.norm(U, axis=1)
    put("g", (nr <= 0.5).astype(float))
    put("h", (nr <= 0.9).astype(float))
    if d == 3:
        put("k", np.all(A <= 0.5, axis=1).astype(float))
        rad = np.linalg.norm(U[:, :2], axis=1) <= 0.5
        put("rad", rad.astype(float))
        put("radc", (rad & (A[:, 2] <= 0.5)).astype(float))
        if k == "cap":
            p = e["pose"]
            put("mid", (A[:, 2] * float(fr_(p["he"][2])) <= float(fr_(e["L"])) / 2).astype(float))
        if k == "faces":
            ax = np.argmax(A, axis=1)
            sg = U[np.arange(n), ax] > 0
            for q in range(6):
                put(f"f{q + 1}", ((ax == q // 2) & (sg == (q % 2 == 0))).astype(float))
            B = A.copy()
            B[np.arange(n), ax] = 0
            put("in", np.all(B <= 0.5, axis=1).astype(float))
        if k == "edges":
            ax = np.argmin(A, axis=1)          # the axis the edge runs along
            ot = [[1, 2], [0, 2], [0, 1]]
            for q in range(1, 13):
                a = (q + 3) // 4 - 1
                s1, s2 = q % 2 == 1, (q // 2) % 2 == 1
                put(f"f{q}", ((ax == a) & ((U[:, ot[a][0]] > 0) == s1) & ((U[:, ot[a][1]] > 0) == s2)).astype(float))
            put("in", (A[np.arange(n), ax] <= 0.5).astype(float))
    return {"st": st, "distinct": enc(len(np.unique(X, axis=0))), "count": enc(n)}


def grid(env, e):
    n = e["n"] if "n" in e else (np.array(e["ns"]) if e.get("ty") == "int" else tuple(e["ns"]) if e.get("ty") == "tuple" else list(e["ns"]))
    r = np.asarray(env.get(e["of"]).grid(n))
    return {"r": enc(r) if r.size else {"t": "mat", "v": [], "sh": [int(s) for s in r.shape]}}


OPS = {"rnd.sample": sample, "rnd.weights": weights, "rnd.psd": psd, "rng.new": rng_new, "rng.global": rng_global, "rnd.call": rnd_call,
       "rej.script": rej_script, "rej.record": rej_record, "rnd.stats": stats, "shape.grid": grid}
