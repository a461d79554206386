"""Random exact arguments.  Numbers are rationals; rotations are integer quaternions (exactly orthogonal)."""
from fractions import Fraction as Fr


def S(x):
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else f"{x.numerator}/{x.denominator}"


def SV(v):
    return [SV(x) if isinstance(x, (list, tuple)) else S(x) for x in v]


DENS = (1, 2, 4, 8, 3, 5, 10, 7)


def num(rng, scale=1, dens=DENS):
    d = rng.choice(dens)
    return Fr(rng.randint(-6 * d, 6 * d), d) * Fr(scale)


def pos(rng, scale=1, dens=DENS):
    d = rng.choice(dens)
    return Fr(rng.randint(1, 5 * d), d) * Fr(scale)


def vec(rng, n=3, scale=1, zero=0.1):
    return [Fr(0) if rng.random() < zero else num(rng, scale) for _ in range(n)]


def ivec(rng, n=3, k=5):
    return [Fr(rng.randint(-k, k)) for _ in range(n)]


SCALES = (Fr(1), Fr(1), Fr(1), Fr(1, 100), Fr(100))
# masses down to specks and up to heavy machinery
MWIDE = (Fr(1), Fr(1), Fr(1, 1000), Fr(1, 20), Fr(30), Fr(1000), Fr(1, 10**9), Fr(10**7))
WIDE = (Fr(1), Fr(1), Fr(1, 1000), Fr(1, 20), Fr(30), Fr(1000))


NO_TINY = [False]


def quat(rng, kind=None):
    """Integer quaternion: generic, axis-aligned quarter turns, half turns, about one axis, tiny angle."""
    kind = kind or rng.choice(["gen", "gen", "gen", "quarter", "half", "axis", "gen" if NO_TINY[0] else "tiny", "third"])
    if kind == "quarter":
        i = rng.randint(1, 3)
        q = [1, 0, 0, 0]
        q[i] = rng.choice([1, -1])
    elif kind == "half":
        q = [0, 0, 0, 0]
        q[rng.randint(1, 3)] = 1
        if rng.random() < 0.3:
            q[rng.randint(1, 3)] = 1
    elif kind == "axis":
        q = [rng.randint(1, 9), 0, 0, 0]
        q[rng.randint(1, 3)] = rng.randint(-9, 9) or 1
    elif kind == "tiny":
        q = [1000, rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(1, 9)]
    elif kind == "speck":
        q = [10 ** rng.choice([4, 5]), rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(1, 9)]
    elif kind == "third":
        q = [1, rng.choice([1, -1]), rng.choice([1, -1]), rng.choice([1, -1])]
    elif kind == "id":
        q = [1, 0, 0, 0]
    else:
        q = [0, 0, 0, 0]
        while not any(q):
            q = [rng.randint(-7, 7) for _ in range(4)]
    return [str(x) for x in q]


def quat_mat(q):
    w, x, y, z = [Fr(v) for v in q]
    n = w * w + x * x + y * y + z * z
    return [
        [(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
        [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n],
        [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n],
    ]


def rot2(rng):
    a, b = rng.choice([(3, 4, ), (5, 12), (8, 15), (1, 0), (0, 1)])
    from math import isqrt
    c = isqrt(a * a + b * b)
    ca, sa = Fr(a, c), Fr(b, c) * rng.choice([1, -1])
    return [[ca, -sa], [sa, ca]]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def rot_n(rng, n):
    """Exact rotation matrix in n dimensions: product of rational Givens rotations."""
    R = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    for _ in range(2 * n if n > 1 else 0):
        i, j = rng.sample(range(n), 2)
        g = rot2(rng)
        G = [[Fr(int(a == b)) for b in range(n)] for a in range(n)]
        G[i][i], G[i][j], G[j][i], G[j][j] = g[0][0], g[0][1], g[1][0], g[1][1]
        R = matmul(R, G)
    return R


def matvec(A, v):
    return [sum(a * x for a, x in zip(r, v)) for r in A]


def transp(A):
    return [list(c) for c in zip(*A)]


def add(u, v):
    return [a + b for a, b in zip(u, v)]


def sub(u, v):
    return [a - b for a, b in zip(u, v)]


TINYMOVES = (Fr(1, 1000), Fr(1, 10**5))


def rigid(rng, scale=1, kind=None):
    """Arguments of a rigid transform: both, only one, or none of rotation and translation given."""
    e = {}
    k = kind or rng.choice(["both", "both", "both", "rot", "trans", "none"])
    if k in ("both", "rot"):
        e["q"] = quat(rng, "speck" if not NO_TINY[0] and rng.random() < 0.1 else None)
    if k in ("both", "trans"):
        e["t"] = SV(vec(rng, 3, scale * (rng.choice(TINYMOVES) if rng.random() < 0.1 else 1)))
    return e


class Ses:
    """A session under construction."""

    def __init__(self, name):
        self.name, self.ev, self.n = name, [], 0

    def add(self, op, new=False, **kw):
        e = {"op": op}
        if new:
            self.n += 1
            e["id"] = f"o{self.n}"
        e.update(kw)
        self.ev.append(e)
        return e.get("id")

    def done(self):
        return {"name": self.name, "ev": self.ev}
