"""Calls with arguments of given sizes and signs (spec/Args.tla): whether they are answered or refused."""
import numpy as np
import cvxpy as cp
import rigeo as rg
from rigeo import util, polydd, moment, constraint, spatial, inertial
import rigeo.random as rrandom
from rigeo.shape import ellipsoid


def filled(rng, size):
    return rng.integers(1, 9, size=tuple(size)) / 4.0


def eye(size):
    return np.eye(*size) if len(size) == 2 else np.ones(size)


def call(env, e):
    rng = np.random.default_rng(e["seed"])
    ls = e.get("ls", False)          # nested lists instead of arrays, where the interface takes "iterables"
    f = e["f"]
    of = env.get(e["of"]) if "of" in e else None
    of2 = env.get(e["of2"]) if "of2" in e else None

    def A(k):
        return filled(rng, e[k])

    def pose():
        kw = {}
        if "rot" in e:
            kw["rotation"] = eye(e["rot"])
        if "ctr" in e:
            kw["center"] = A("ctr")
        return kw

    def rigid():
        kw = {}
        if "rot" in e:
            kw["rotation"] = eye(e["rot"])
        if "t" in e:
            kw["translation"] = A("t")
        return kw

    def sign(x, flag="neg"):
        """Make one entry negative when the flag is set."""
        x = np.array(x, dtype=float)
        if e.get(flag):
            x.flat[rng.integers(x.size)] *= -1
        return x

    def unbounded(x):
        if e.get("inf"):
            x = np.array(x)
            x.flat[rng.integers(x.size)] = rng.choice([np.inf, np.nan])
        return x

    def var(size):
        return cp.Variable(tuple(size), PSD=True) if len(size) == 2 and size[0] == size[1] else cp.Variable(tuple(size))

    def points(n, d):
        """Affinely spanning points."""
        return rng.permutation(np.vstack((np.zeros(d), np.eye(d), 1 + filled(rng, [n - d - 1, d]))))

    if f == "box":
        return rg.Box(unbounded(sign(A("he"))), **pose())
    if f == "cube":
        return rg.Box.cube(float(unbounded(sign([0.5]))[0]))
    if f == "sphere":
        return rg.Ellipsoid.sphere(float(unbounded(sign([0.5]))[0]))
    if f == "sides":
        return rg.Box.from_side_lengths(sign(A("v")))
    if f == "corners":
        return rg.Box.from_two_vertices(A("v"), A("w"))
    if f == "bound":
        return rg.Box.from_points_to_bound(A("P"))
    if f == "shape_matrix":
        return rg.Ellipsoid.from_shape_matrix(4 * eye(e["A"]), **pose())
    if f == "affine":
        return rg.Ellipsoid.from_affine(4 * eye(e["A"]), A("b"))
    if f == "capsule":
        cyl = rg.Cylinder(1.0, 2.0)
        return rg.Capsule({"cyl": cyl, "box": rg.Box([1, 1, 1]), "ell": rg.Ellipsoid.sphere(1.0), "cap": cyl.capsule()}[e["of3"]])
    if f == "rotc":
        return of.rotate_about_center(eye(e["rot"]))
    if f == "contains_ell":
        return of.contains_ellipsoid(of2, solver="CLARABEL")
    if f in ("H2I", "I2H"):
        return getattr(inertial, f)(A("A"))
    if f == "jacobian":
        return util.contact_jacobian(A("a"))
    if f == "eval":
        return moment.Polynomial.affine(a=filled(rng, [e["n"]]), b=1.0).evaluate(A("x"))
    if f == "poly.plus":
        return moment.Polynomial.affine(a=filled(rng, [e["n1"]]), b=1.0) + moment.Polynomial.affine(a=filled(rng, [e["n2"]]), b=0.5)
    if f == "poly.terms":
        return moment.Polynomial({(1,) + (0,) * (e["n1"] - 1): 0.5, (0,) * (e["n2"] - 1) + (2,): 1.5})
    if f == "wrench":
        p = rg.InertialParameters(mass=1.5, com=np.array([1.0, 0, 2]), H=6 * np.eye(3))
        V, W = (filled(rng, [6]) for _ in range(2))
        return p.body_wrench(*((V, W) if e.get("raw") else (spatial.SpatialVector.from_vec(V), spatial.SpatialVector.from_vec(W))))
    if f == "sample":
        g = {"points": "random_points", "surface": "random_points_on_surface"}[e["how"]]
        sh = e["sh"]
        return getattr(of, g)(sh[0] if len(sh) == 1 and e["seed"] % 2 else tuple(sh), rng=e["seed"])
    if f == "schur":
        return constraint.schur(cp.Variable(tuple(e["A"])), cp.Variable(tuple(e["B"])), cp.Variable(tuple(e["C"])))
    if f == "ell":
        return rg.Ellipsoid(unbounded(sign(A("he"))), **pose())
    if f == "cyl":
        return rg.Cylinder(length=float(sign([1.5], "negL")[0]), radius=float(sign([0.5], "negr")[0]), **pose())
    if f == "simplex":
        x = unbounded(sign(A("he")))
        if e.get("zero"):
            x.flat[rng.integers(x.size)] = 0
        return rg.ConvexPolyhedron.simplex(x)
    if f == "rays":
        rays = filled(rng, [e["R"], e["n"]]) if e["R"] else None
        return rg.ConvexPolyhedron(span_form=polydd.SpanForm(vertices=points(e["n"] + 2, e["n"]), rays=rays))
    if f in ("sf.transform", "ff.transform"):
        g = polydd.SpanForm(points(5, e["n"]), filled(rng, [1, e["n"]]) if e["seed"] % 2 else None)
        return (g if f[0] == "s" else g.to_face_form()).transform(**rigid())
    if f == "stack":
        g, h = (polydd.SpanForm(points(e[k] + 2, e[k])).to_face_form() for k in ("n1", "n2"))
        return g.stack(h)
    if f == "mbee":
        es = [rg.Ellipsoid(filled(rng, [e[k]]), center=filled(rng, [e[k]])) for k in ("n1", "n2")]
        return ellipsoid.mbe_of_ellipsoids(es, solver="CLARABEL")
    if f == "poly.localize":
        return moment.Polynomial.affine(a=filled(rng, [e["n1"]]), b=1.0).localize(moment.MomentIndex([int(k) for k in rng.integers(0, 2, size=e["n2"])]))
    if f == "locmat":
        return moment.MomentMatrix(e["n1"], 2).localizing_matrix(1, moment.Polynomial.affine(a=filled(rng, [e["n2"]]), b=1.0))
    if f == "mie":
        m, n = e["A"]
        rows = np.array([s * np.eye(n)[i] for i in range(n) for s in (1, -1)])
        rows = np.vstack((rows, rows))[:m]
        return ellipsoid.mie_inequality_form(rows, np.ones(e["b"]), solver="CLARABEL")
    if f == "rmse":
        return util.validation_rmse(A("Y"), A("ws"), A("th"))
    if f == "pimvec":
        v = A("v")
        return constraint.pim_must_equal_vec(v if e["seed"] % 2 else cp.Variable(v.shape))
    if f == "localize":
        M = filled(rng, e["M"])
        return moment.MomentMatrix(n=e["n"], d=e["d"]).localize(M + M.T, moment.Polynomial.affine(a=filled(rng, [e["n"]]), b=1.0))
    if f == "sv.plus":
        v = rg.SpatialVector(filled(rng, [3]), filled(rng, [3]))
        q = {"sv": rg.SpatialVector(filled(rng, [3]), filled(rng, [3])), "number": 1.5, "array": filled(rng, [6])}[e["other"]]
        if e["seed"] % 2:
            return q + v if e["side"] == "l" else v + q
        return q - v if e["side"] == "l" else v - q
    if f == "diag":
        g = {"sv": rg.SpatialVector(filled(rng, [3]), filled(rng, [3])), "array": filled(rng, [6])}
        return rg.SpatialVector.random_diag_normal(g[e["mean"]], g[e["cov"]], rng=e["seed"])
    if f == "verts":
        return rg.ConvexPolyhedron.from_vertices(rng.permutation(np.arange(int(np.prod(e["V"])))).reshape(e["V"]) ** 2 / 16.0)
    if f == "halfspaces":
        m, n = e["A"]
        rows = np.array([s * np.eye(n)[i] for i in range(n) for s in (1, -1)])[:m]
        return rg.ConvexPolyhedron.from_halfspaces(rows, np.ones(e["b"]))
    if f == "transform":
        return of.transform(**rigid())
    if f in ("contains", "on_surface"):
        p = A("pts")
        return getattr(of, f)(p.tolist() if ls else p)
    if f == "must_contain":
        return of.must_contain(A("pts") if not e.get("var") else cp.Variable(tuple(e["pts"])))
    if f == "grid":
        return of.grid(e["n"])
    if f == "density":
        return getattr(of, e["how"] + "_density_params")(float(sign([1.5])[0]))
    if f == "masses":
        return of.vertex_point_mass_params(sign(A("m")))
    if f == "family":
        name = {"sdp": "moment_sdp_constraints", "vertex": "moment_vertex_constraints", "custom": "moment_custom_vertex_constraints",
                "ell": "moment_constraints"}[e["fam"]]
        kw = {"eps": -0.25} if e.get("negeps") else ({} if rng.random() < 0.5 else {"eps": 0.125})
        return getattr(of, name)(var(e["var"]), **kw)
    if f == "can_realize":
        p = rg.InertialParameters(mass=1.0, com=np.zeros(3), H=np.eye(3))
        return of.can_realize(p)
    if f == "body.family":
        body = rg.RigidBody([of] + [rg.Box([1, 1, 1])] * (e["n"] - 1))
        kw = {"eps": -0.25} if e.get("negeps") else ({} if rng.random() < 0.5 else {"eps": 0.125})
        return body.moment_sdp_constraints(var(e["var"]), **kw)
    if f in ("body.transform", "body.plus"):
        p = rg.InertialParameters(mass=1.5, com=np.array([1.0, 0, 2]), H=6 * np.eye(3))
        body = rg.RigidBody([rg.Box([1, 1, 1]), rg.Cylinder(1.0, 2.0)][:e.get("n", 1)], p)
        if f == "body.transform":
            return body.transform(**rigid())
        q = {"body": body, "par": p, "number": 1.5, "zero": 0, "shape": rg.Box([1, 1, 1]), "none": None}[e["other"]]
        return q + body if e["side"] == "l" else body + q
    if f == "par":
        kw = {k: A(k) for k in ("com", "h", "H", "I") if k in e}
        for k in ("H", "I"):
            if k in kw and kw[k].ndim == 2 and kw[k].shape[0] == kw[k].shape[1]:
                kw[k] = kw[k] @ kw[k].T
        mass = float(sign([1.5])[0])
        if "com" in kw and "h" in kw and rng.random() < 0.6:
            kw["h"] = mass * kw["com"]                   # they agree
        if "H" in kw and "I" in kw and rng.random() < 0.6:
            kw["I"] = inertial.H2I(kw["H"])
        if e.get("tfc"):
            kw["translate_from_com"] = True
        return rg.InertialParameters(mass=mass, **kw)
    if f == "par.vec":
        return rg.InertialParameters.from_vec(A("v"))
    if f == "par.pim":
        J = A("J")
        return rg.InertialParameters.from_pim(J @ J.T if J.ndim == 2 and J.shape[0] == J.shape[1] else J)
    if f == "par.pm":
        return rg.InertialParameters.from_point_masses(masses=A("m"), points=A("P"))
    if f == "par.transform":
        return rg.InertialParameters(mass=1.5, com=np.array([1.0, 0, 2]), H=6 * np.eye(3)).transform(**rigid())
    if f == "par.plus":
        p = rg.InertialParameters(mass=1.5, com=np.array([1.0, 0, 2]), H=6 * np.eye(3))
        q = {"par": p, "number": 1.5, "zero": 0, "array": np.eye(4), "shape": rg.Box([1, 1, 1]), "none": None}[e["other"]]
        return q + p if e["side"] == "l" else p + q
    if f == "vech":
        return util.vech(A("a"))
    if f == "unvech":
        return util.unvech(A("a"))
    if f in ("skew3", "lift3"):
        return getattr(util, f)(A("a"))
    if f == "frame":
        g = [util.clean_transform, util.transform_matrix, util.transform_matrix_inv][e["seed"] % 3]
        r = rigid()
        return g(r.get("rotation"), r.get("translation"), dim=e["n"])
    if f == "times":
        return util.compute_evaluation_times(float(sign([2.0], "negT")[0]), step=float(sign([0.25], "negs")[0]))
    if f == "sv":
        return spatial.SpatialVector(linear=A("lin"), angular=A("ang"))
    if f == "sv.vec":
        return spatial.SpatialVector.from_vec(A("v"))
    if f == "index":
        # some are the constant monomial
        i, j = (tuple(int(k) for k in rng.integers(0, rng.choice([1, 3]), size=e[k])) for k in ("n1", "n2"))
        return moment.MomentIndex(i) + moment.MomentIndex(j)
    if f == "moments":
        return moment.MomentMatrix(n=e["n"], d=e["d"]).moment_constraints(var(e["M"]))
    if f == "substitute":
        M = moment.MomentMatrix(n=e["n"], d=e["d"])
        return M.localizing_constraints(var(e["M"]), polys=[moment.Polynomial.affine(a=np.ones(e["n"]), b=1.0)])
    if f == "psd":
        return constraint.pim_psd(var(e["J"]), **({"eps": -0.25} if e.get("negeps") else {}))
    if f == "closest":
        return rg.closest_points(of, of2, solver="CLARABEL")
    if f == "intersect":
        return of.intersect(of2)
    if f == "contains_poly":
        return of.contains_polyhedron(of2)
    if f == "hull":
        return polydd.convex_hull(rng.permutation(np.arange(int(np.prod(e["P"])))).reshape(e["P"]) ** 2 / 16.0)
    if f == "face":
        kw = {"A_eq": A("Ae"), "b_eq": A("be")} if "Ae" in e else {}
        return polydd.FaceForm(A("A"), A("b"), **kw)
    if f == "span":
        return polydd.SpanForm(vertices=A("V") if "V" in e else None, rays=A("R") if "R" in e else None, span=A("L") if "L" in e else None)
    if f == "sphere.pts":
        return rrandom.random_points_on_hypersphere(3, dim=e["dim"], rng=e["seed"])
    if f == "ball.pts":
        return rrandom.random_points_in_ball(3, dim=e["dim"], rng=e["seed"])
    raise KeyError(f)


def arg_call(env, e):
    call(env, e)
    return {"answered": True}


OPS = {"arg.call": arg_call}
