"""Scenarios for the frame condition: C28.  Sessions of every other family, executed in frame mode, and long
histories over shared operands taken from the design model MC_Frame."""
from .common import *
from .inertia import new_par
from .shapes import new_shape, ask, move_args
from . import inertia, shapes, dynamics, polydd, rnd, opt, mom, real

FAMILIES = (inertia, shapes, dynamics, polydd, rnd, opt, mom, real)
# sessions taken from each family (solver-heavy families less)
SHARE = {"C23": 40, "C13": 8, "C14": 8, "C15": 8, "C18": 6, "C19": 6, "C20": 6, "C21": 6, "C24": 3, "C25": 4, "C27": 4}


def concrete(s, rng, names, a):
    """One abstract step: an event on the named operands."""
    op, k = a["op"], a["k"]
    x = [names[i - 1] for i in a["x"]]
    if k == "S":
        kind = s.kind[x[0]]
        if op == "move":
            e, _, _ = move_args(rng, 3, Fr(1))
            y = s.add("shape.transform", new=True, of=x[0], **e)
            s.kind[y] = kind
        elif op == "bound":
            y = s.add("shape.aabb", new=True, of=x[0])
            s.kind[y] = "box"
        elif op == "dens":
            if kind in ("box", "ell", "cyl"):
                y = s.add("dens", new=True, of=x[0], how=rng.choice(["uniform", "hollow", "wireframe"] if kind == "box" else ["uniform"]), m=S(pos(rng)))
            elif kind == "poly":
                y = s.add("dens.vertex", new=True, of=x[0], m=S(pos(rng)))
            else:
                y = s.add("par.random", new=True, seed=rng.randint(0, 99))
        elif op == "sample":
            s.add("rnd.sample", f="points", of=x[0], shape=[rng.randint(1, 5)], seed=rng.randint(0, 99), d=3)
            return None
        else:
            ask_(s, rng, x[0])
            return None
        return y
    if k == "P":
        if op == "move":
            return s.add("par.transform", new=True, of=x[0], **rigid(rng))
        if op == "conv":
            return s.add("par.conv", new=True, of=x[0], route=rng.choice(["vec", "pim", "hH", "cH", "hI", "cIc", "I2H", "pimvec"]))
        return s.add("par.add", new=True, x=x[0], y=x[1])
    if op == "move":
        return s.add("body.transform", new=True, of=x[0], **rigid(rng))
    return s.add("body.add", new=True, x=x[0], y=x[1])


def ask_(s, rng, x):
    pts = SV([vec(rng, 3, 1) for _ in range(rng.randint(1, 4))])
    r = rng.random()
    if r < 0.5:
        s.add("shape.contains", of=x, pts=pts, **({"ty": rng.choice(["F", "view", "list"])} if rng.random() < 0.3 else {}))
    elif r < 0.7:
        s.add("shape.read", of=x)
    elif r < 0.85:
        s.add("shape.same", x=x, y=x)
    elif s.kind[x] in ("box", "ell"):
        s.add("shape.on_surface", of=x, pts=pts)


def history(s, rng, steps):
    s.kind = {}
    kind = rng.choice(["box", "ell", "cyl", "cap", "poly"])
    a, _ = new_shape(s, rng, kind, scale=Fr(1))
    s.kind[a] = kind
    names = [a, s.add("par.random", new=True, seed=rng.randint(0, 999))]
    for st in steps:
        if st["op"] == "body":
            names.append(s.add("body.new", new=True, shapes=[names[st["x"][0] - 1]], par=names[st["x"][1] - 1]))
        else:
            y = concrete(s, rng, names, st)
            if y:
                names.append(y)
    return s.done()


def long_history(s, rng, n):
    """A random walk over a shared population of everything."""
    s.kind = {}
    sh, pa, bo, po, sv = [], [], [], [], []
    for _ in range(2):
        k = rng.choice(["box", "ell", "cyl", "cap", "poly"])
        x, _ = new_shape(s, rng, k, scale=Fr(1))
        s.kind[x] = k
        sh.append(x)
        pa.append(s.add("par.random", new=True, seed=rng.randint(0, 999)))
        po.append(s.add("poly.affine", new=True, a=SV(vec(rng, 2, 1)), b=S(num(rng, 1))))
        sv.append(s.add("sv.new", new=True, lin=SV(vec(rng, 3, 1)), ang=SV(vec(rng, 3, 1))))
    bo.append(s.add("body.new", new=True, shapes=sh[:2], par=pa[0]))
    while len(s.ev) < n:
        r = rng.random()
        if r < 0.35:
            st = {"op": rng.choice(["move", "bound", "dens", "sample", "ask", "move"]), "k": "S", "x": [1]}
            x = rng.choice(sh)
            y = concrete(s, rng, [x], st)
            if y and st["op"] in ("move", "bound"):
                sh.append(y)
            elif y:
                pa.append(y)
        elif r < 0.55:
            op = rng.choice(["move", "conv", "add", "add"])
            pa.append(concrete(s, rng, [rng.choice(pa), rng.choice(pa)], {"op": op, "k": "P", "x": [1, 2]}))
        elif r < 0.7:
            op = rng.choice(["move", "add", "add"])
            bo.append(concrete(s, rng, [rng.choice(bo), rng.choice(bo)], {"op": op, "k": "B", "x": [1, 2]}))
        elif r < 0.75:
            bo.append(s.add("body.new", new=True, shapes=rng.sample(sh, min(len(sh), rng.randint(1, 3))), par=rng.choice(pa)))
        elif r < 0.85:
            if rng.random() < 0.3:
                d = rng.choice([1, 2, 2])
                s.add(rng.choice(["mm.indices", "mm.loc", "mm.loc"]), of=rng.choice(po), n=2, d=d, dl=rng.randint(0, d))
            elif rng.random() < 0.6:
                po.append(s.add("poly.add", new=True, x=rng.choice(po), y=rng.choice(po)))
            else:
                po.append(s.add("poly.loc", new=True, of=rng.choice(po), i=[rng.randint(0, 2), rng.randint(0, 2)]))
        elif r < 0.95:
            op = rng.choice(["sv.add", "sv.sub", "sv.mul", "sv.div"])
            if op in ("sv.add", "sv.sub"):
                sv.append(s.add(op, new=True, x=rng.choice(sv), y=rng.choice(sv)))
            else:
                sv.append(s.add(op, new=True, x=rng.choice(sv), a=S(pos(rng, 1))))
        else:
            s.add("body.read", of=rng.choice(bo))
    return s.done()


def gen_c28(rng, tier, scns):
    big = tier == "thorough"
    out = []
    for m in FAMILIES:
        for p, spec in sorted(m.PROPS.items()):
            g = random_of(rng)
            ses = spec["gen"](g, "quick", {})
            n = SHARE.get(p, 14) * (8 if big else 1)
            for x in sorted(rng.sample(range(len(ses)), min(n, len(ses)))):
                out.append({"name": f"c28-{p}-{ses[x]['name']}", "ev": ses[x]["ev"][:60]})
    al = list(scns.get("MC_Frame", []))
    rng.shuffle(al)
    for i, h in enumerate(al[:8000 if big else 350]):
        out.append(history(Ses(f"c28-model-{i}"), rng, h))
    for i in range(200 if big else 25):
        # arrays with round-off in them: nothing may be cleaned up in place
        s = Ses(f"c28-noise-{i}")
        tiny = lambda: rng.choice([Fr(0), Fr(1), Fr(1), Fr(-1)]) * Fr(1, 10 ** rng.choice([10, 13, 16]))
        noisy = lambda v: [a + tiny() for a in v]
        sz = pos(rng)
        V = [noisy(v) for v in [[0, 0, 0], [sz, 0, 0], [0, sz, 0], [0, 0, sz]]]
        x = s.add("shape.new", new=True, how="poly", V=SV(V))
        y = s.add("shape.new", new=True, how=rng.choice(["box", "ell"]), he=SV([sz] * 3), c=SV(noisy([sz, 0, 0])))
        z = s.add("shape.new", new=True, how="cyl", L=S(sz), r=S(sz), c=SV(noisy([0, 0, -sz])))
        p = s.add("par.new", new=True, m="2", c=SV(noisy([0, sz, 0])), H=SV([[sz * (i == j) for j in range(3)] for i in range(3)]), tfc=True)
        for _ in range(8):
            o = rng.choice([x, x, y, z])
            r = rng.choice(["read", "contains", "masses", "grid", "transform", "aabb", "rparams"])
            if r == "read":
                s.add("shape.read", of=o)
            elif r == "contains":
                s.add("shape.contains", of=o, pts=SV([noisy([0, 0, 0]), noisy([sz, sz, 0])]))
            elif r == "masses":
                s.add("dens.vertex", new=True, of=x, **({"m": "2"} if rng.random() < 0.5 else {"ms": SV(noisy([1, 2, 3, 4]))}))
            elif r == "grid":
                s.add("shape.grid", of=o, n=rng.choice([2, 3]))
            elif r == "transform":
                o = s.add("shape.transform", new=True, of=o, t=SV(noisy([1, 0, 0])))
                s.add("shape.read", of=o)
            elif r == "aabb":
                s.add("shape.aabb", new=True, of=o)
            else:
                s.add("par.read", of=p)
        out.append(s.done())
    for i in range(400 if big else 40):
        out.append(long_history(Ses(f"c28-long-{i}"), rng, 30))
    return out


def random_of(rng):
    import random

    return random.Random(rng.random())


MC = lambda d: f'CONSTANTS D = {d} Leaky = {{}} Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS Typed Emitted\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n'


def models(tier):
    return [("MC_Frame", MC(3 if tier == "quick" else 4))]


PROPS = {"C28": {"models": models, "gen": gen_c28, "trace": "Frame", "frame": True}}
