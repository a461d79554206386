"""Scenarios for well-formed and malformed calls: C31."""
from .common import *
from .shapes import new_shape

FRAMEWORK = ("f", "of", "d", "of2", "d2", "fits")
# calls whose receivers are given no flat directions
UNFLAT = ("closest", "can_realize", "grid", "intersect", "sample", "contains_ell", "density", "masses", "family", "body.family")


def receiver(s, rng, kind, d, f):
    if f == "masses":
        i = s.add("shape.new", new=True, how="simplex", ext=SV([pos(rng) for _ in range(3)]))
        if rng.random() < 0.5:
            i = s.add("shape.transform", new=True, of=i, q=quat(rng), t=SV(vec(rng)))
        return i
    plain = f in ("closest", "can_realize", "contains_ell")
    return new_shape(s, rng, kind, scale=Fr(1) if plain else None, degenerate=0.0 if f in UNFLAT else 0.1, d=d)[0]


def gen_c31(rng, tier, scns):
    calls = [dict(c) for c in scns.get("MC_Args", [])]
    out = []
    for rep in range(1 if tier == "quick" else 12):
        rng.shuffle(calls)
        # some sessions mix operations; receivers are used for several calls and looked at again afterwards
        for b in range(0, len(calls), 9):
            s = Ses(f"c31-{rep}-{b // 9}")
            have, seen = {}, []
            for c in calls[b:b + 9]:
                e = {k: v for k, v in c.items() if k not in FRAMEWORK}
                for o, dd in (("of", "d"), ("of2", "d2")):
                    if o in c:
                        key = (c[o], c[dd], o, "masses" if c["f"] == "masses" else "plain" if c["f"] in UNFLAT else "")
                        if key not in have or rng.random() < 0.3:
                            have[key] = receiver(s, rng, c[o], c[dd], c["f"])
                        e[o] = have[key]
                        if e[o] not in seen:
                            seen.append(e[o])
                    elif dd in c:
                        e[dd] = c[dd]        # an argument of the call, not the dimension of an operand
                s.add("arg.call", f=c["f"], seed=rng.randrange(10**6), ls=rng.random() < 0.4, **e)
            for i in seen[:4]:
                s.add("shape.read", of=i)
            out.append({"name": s.name, "ev": s.ev})
    return out


MCA = lambda big: [("MC_Args", f"CONSTANT Big = {'TRUE' if big else 'FALSE'}\nINIT Init\nNEXT Next\nINVARIANTS Sharp Both Emitted\nCHECK_DEADLOCK FALSE\n")]
PROPS = {"C31": {"models": lambda t: MCA(t != "quick"), "gen": gen_c31}}
