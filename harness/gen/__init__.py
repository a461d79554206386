from . import inertia, shapes, dynamics, polydd, rnd, opt, mom, real, frame, args

PROPS = {}
for m in (inertia, shapes, dynamics, polydd, rnd, opt, mom, real, frame, args):
    PROPS.update(m.PROPS)
