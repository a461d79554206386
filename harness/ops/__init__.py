from . import shapes, params, dyn, polydd, rnd, opt, mom, real, args

OPS = {}
for m in (shapes, params, dyn, polydd, rnd, opt, mom, real, args):
    OPS.update(m.OPS)
