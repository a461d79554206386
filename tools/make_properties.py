import json
S="src/rigeo/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=state or [],mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    assert len(title)<=80,title
    P.append(d)
p("C01","Every representation of a body's inertia describes the same mass distribution",
 "For any inertial parameters, however they were constructed (mass with first moment or centre of mass, second-moment matrix or inertia matrix, about the origin or about the centre of mass, from a parameter vector, from a pseudo-inertia matrix, or from point masses), the mass, first moment, centre of mass, second-moment matrix, inertia matrix, their centre-of-mass versions, pseudo-inertia matrix, spatial mass matrix and parameter vector that can be read back are all exactly those of one and the same mass distribution. Converting to any representation and back changes nothing, and contradictory constructor arguments are refused.",
 ["inputs","histories"],"all masses, moments, reference points and chains of conversions",
 "The tests try one or two symmetric boxes with diagonal inertia; products of inertia, off-origin reference points, and chains of conversions are never sampled.",
 ["inertial.py","constraint.py"],[("InertialParameters constructor and properties","inertial.py:InertialParameters"),("H2I / I2H","inertial.py:H2I"),("parameter-vector basis","constraint.py:pim_sum_vec_matrices")],
 ["InertialParameters(...).mass/h/com/H/I/Hc/Ic/J/M/vec","from_vec","from_pim","from_point_masses"])
p("C02","Moving inertial parameters equals moving the mass they describe",
 "Applying a rigid transform to inertial parameters gives exactly the parameters of the same mass distribution after every mass element has been rotated and then translated. Consequently transforms compose, the inverse transform restores the original, mass and centroidal principal moments never change, and omitting the rotation or the translation means identity.",
 ["inputs","histories"],"all parameters, rotations, translations, and sequences of transforms and additions",
 "Tests transform a single origin-centred symmetric cube about z; off-origin, asymmetric bodies and sequences of transforms are not reached.",
 ["inertial.py","rigidbody.py","util.py"],[("InertialParameters.transform","inertial.py:InertialParameters.transform"),("RigidBody.transform","rigidbody.py:RigidBody.transform")],["transform(...).J"])
p("C03","Combining bodies or parameters adds their moments, with empty as identity",
 "Adding inertial parameters (or rigid bodies, or using sum over a sequence of them) gives total mass, first moment and second moment equal to the sums over the parts, and for bodies the shapes of all parts in order. Addition is commutative and associative on the moments, commutes with rigid transforms, and massless (zero) parameters or bodies are a neutral element that never yields undefined values.",
 ["inputs","histories"],"all multisets of parameters and bodies, including massless ones, combined in any order and grouping",
 "Tests add one body to itself; zero-mass operands, longer sums and mixing with transforms are not sampled.",
 ["inertial.py","rigidbody.py"],[("InertialParameters.__add__/__radd__/zero","inertial.py:InertialParameters"),("RigidBody.__add__/__radd__","rigidbody.py:RigidBody")],["(a+b).J","sum([...])","(body1+body2).shapes/params"])
p("C04","Physical-consistency test accepts exactly the physically possible parameters",
 "Parameters obtained from any non-negative point masses of full rank, or built by the library's random generator, are reported physically consistent, and stay so under rigid transforms and addition. Parameters whose pseudo-inertia matrix has a clearly negative eigenvalue are reported inconsistent, and with a threshold eps the answer is whether the smallest eigenvalue is at least eps.",
 ["inputs","histories"],"all parameters whose smallest pseudo-inertia eigenvalue is not within rounding of the threshold",
 "Tests never call the check with an inconsistent example or a non-zero threshold.",
 ["inertial.py"],[("InertialParameters.consistent","inertial.py:InertialParameters.consistent"),("InertialParameters.random","inertial.py:InertialParameters.random")],["consistent(eps)"])
p("C05","Named density distributions have the exact moments of their region",
 "For every mass, size and pose, the uniform-density parameters of a box, ellipsoid or cylinder, the hollow and wireframe parameters of a box, the hollow parameters of a sphere, and the vertex point-mass parameters of a polyhedron equal the exact mass, first and second moments of mass spread uniformly over that region (solid, surface, edges, vertices), expressed about the world origin. They scale linearly with mass and move with the shape.",
 ["inputs","configurations"],"all non-negative masses, half extents (including one zero extent), and poses",
 "Tests compare two formulas by a constant factor and check mass scaling at one size, at the origin only; no independent integral is checked.",
 ["shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/poly.py"],[("Box density parameters","shape/box.py:Box.uniform_density_params"),("Ellipsoid density parameters","shape/ellipsoid.py:Ellipsoid.uniform_density_params"),("Cylinder.uniform_density_params","shape/cylinder.py:Cylinder.uniform_density_params"),("vertex_point_mass_params","shape/poly.py:ConvexPolyhedron.vertex_point_mass_params")],["*_density_params(mass).J","vertex_point_mass_params(mass).J"])
p("C06","Wrench, regressor and spatial mass matrix obey the Newton-Euler equations",
 "For all inertial parameters, body velocities and accelerations, the body wrench equals the total force and moment needed to give every mass element of the described distribution its acceleration, and equals the regressor matrix applied to the parameter vector. The wrench is linear in the parameters, so wrenches of combined bodies add, and spatial vectors form a vector space with angular part first.",
 ["inputs"],"all parameters, velocities and accelerations",
 "A single random velocity/acceleration pair is compared with another library; the wrench itself is never tested.",
 ["inertial.py","rigidbody.py","spatial.py","util.py"],[("body_wrench","inertial.py:InertialParameters.body_wrench"),("regressor","rigidbody.py:RigidBody.regressor"),("SpatialVector","spatial.py:SpatialVector"),("lift6","util.py:lift6")],["body_wrench(V,A).vec","RigidBody.regressor(V,A)","SV arithmetic","M"])
p("C07","Matrix helper operators satisfy their defining identities",
 "For every input, half-vectorisation and its inverse round-trip (with diagonal offsets and size validation), the skew operator realises the cross product, the lifting operators realise matrix-vector and mass-matrix products as linear maps of the half-vectorised operand, second-moment/inertia conversion is an involution pair, homogeneous transforms and their inverses multiply to identity and act as rotate-then-translate, the contact Jacobian maps a force to its wrench, box vertices enumerate all sign combinations, the Schur-complement and parameter-to-pseudo-inertia builders produce the stated block matrices, and evaluation times and validation error follow their definitions.",
 ["inputs"],"all vectors, matrices and sizes",
 "Tests evaluate each helper on one or two fixed or random samples, and several helpers (inverse transforms, contact Jacobian, Schur builder, evaluation times) not at all.",
 ["util.py","inertial.py","constraint.py"],[("vech/unvech/skew3/lift3/lift6","util.py:vech"),("transform_matrix(_inv)","util.py:transform_matrix_inv"),("schur, pim_must_equal_vec, pim_sum_vec_matrices","constraint.py:schur")],["return values"])
p("C08","Containment queries decide membership in the stated set",
 "For every box, ellipsoid (of any dimension, possibly flat), cylinder, capsule and convex polyhedron in any pose, the containment query answers true for every point of the closed set and false for every point outside it by more than the tolerance, the same for a single point as for that point inside a batch. Every shape honours the tolerance argument: raising it never turns true into false and admits points outside by less than it. A shape contains a polyhedron exactly when it contains all its vertices.",
 ["inputs","configurations"],"all shapes, poses, points and tolerances, away from rounding of the boundary",
 "Tests probe a handful of axis-aligned points on unrotated or origin-centred shapes and never vary the tolerance.",
 ["shape/poly.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","shape/base.py"],[("contains","shape/ellipsoid.py:Ellipsoid.contains"),("contains","shape/cylinder.py:Cylinder.contains"),("contains","shape/capsule.py:Capsule.contains"),("contains","shape/poly.py:ConvexPolyhedron.contains"),("contains_polyhedron","shape/base.py:Shape.contains_polyhedron")],["contains(points, tol)","contains_polyhedron(poly)"])
p("C09","Rigidly transforming a shape moves exactly its point set",
 "For every shape and every sequence of rigid transforms (and in-place rotations about the centre), a point belongs to the transformed shape exactly when its pre-image belongs to the original; size attributes (extents, radius, length, volume) are unchanged, vertices, centre and end points move with it, and rotation about the centre keeps the centre fixed. Transforming a rigid body moves all its shapes and its inertial parameters together.",
 ["histories","inputs"],"all shapes and all sequences of rotations and translations",
 "Tests transform a cube once about one axis; asymmetric shapes, composition and off-origin rotations are not sampled.",
 ["shape/poly.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","rigidbody.py"],[("transform","shape/box.py:Box.transform"),("transform","shape/ellipsoid.py:Ellipsoid.transform"),("transform","shape/cylinder.py:Cylinder.transform"),("transform","shape/capsule.py:Capsule.transform"),("transform","shape/poly.py:ConvexPolyhedron.transform"),("RigidBody.transform","rigidbody.py:RigidBody.transform")],["transform(...).contains(...)","vertices","endpoints()"])
p("C10","Surface queries decide membership in the boundary",
 "For every box and ellipsoid in any pose, the surface query answers true exactly for points of the boundary (within tolerance) and false for interior and exterior points, identically for single points and batches; for a flat ellipsoid the boundary is the whole set.",
 ["inputs","configurations"],"all boxes and ellipsoids, poses and points away from rounding of the decision",
 "Tests check a few axis points; rotated ellipsoids and near-miss points on face planes are not sampled.",
 ["shape/box.py","shape/ellipsoid.py"],[("on_surface","shape/box.py:Box.on_surface"),("on_surface","shape/ellipsoid.py:Ellipsoid.on_surface")],["on_surface(points, tol)"])
p("C11","Shape equality is an equivalence matching equality of point sets",
 "Comparing shapes for sameness is reflexive (also for flat ellipsoids), symmetric and consistent under applying one rigid transform to both, answers true when the two shapes were built to describe the same set by different routes of the same shape class (or as general polyhedra), and answers false when the sets differ by more than the tolerance or the shapes are of unrelated kinds. Sameness of inertial parameters likewise holds exactly when all their moments agree.",
 ["inputs","histories"],"all pairs of shapes and of inertial parameters",
 "Tests only ever compare a few shapes that are equal; inequality, flat ellipsoids, capsules and argument order are not sampled.",
 ["shape/poly.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","inertial.py"],[("is_same","shape/ellipsoid.py:Ellipsoid.is_same"),("is_same","shape/poly.py:ConvexPolyhedron.is_same"),("is_same","shape/capsule.py:Capsule.is_same"),("is_same","shape/cylinder.py:Cylinder.is_same"),("is_same","inertial.py:InertialParameters.is_same")],["a.is_same(b)"])
p("C12","Bounding boxes enclose their shape and touch it; inscribed boxes fit maximally",
 "For every shape in any pose the axis-aligned bounding box contains the shape and every one of its six faces touches it; oriented bounding boxes of ellipsoids, cylinders and capsules contain the shape with the shape's own axes and exact extents, inscribed boxes lie inside with the maximal-volume proportions, and a box built from points or two corners is the smallest axis-aligned box around them. Derived sizes (side lengths, volume, diagonal) agree with the box.",
 ["inputs","configurations"],"all shapes and poses, point sets and corner pairs",
 "Tightness is only tested through a solver for one ellipsoid and one cylinder, and those tests cannot run without a licence.",
 ["shape/base.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","shape/poly.py"],[("aabb","shape/ellipsoid.py:Ellipsoid.aabb"),("aabb","shape/cylinder.py:Cylinder.aabb"),("aabb","shape/capsule.py:Capsule.aabb"),("mbb/mib","shape/cylinder.py:Cylinder.mbb"),("from_points_to_bound","shape/box.py:Box.from_points_to_bound")],["aabb()","mbb()","mib()","Box.from_points_to_bound","Box.from_two_vertices"])
p("C13","Bounding and inscribed ellipsoids enclose or fit, and are optimal",
 "Every bounding ellipsoid (of a box, cylinder, ellipsoid, capsule, polyhedron, point set, possibly lying in a subspace, set of ellipsoids, or each shape of a body) contains what it bounds and no verified enclosing ellipsoid has smaller volume; the sphere variants return the smallest enclosing sphere. Every inscribed ellipsoid (or sphere) lies inside its polyhedron and none verified to fit has larger volume. The ellipsoid-in-ellipsoid query answers whether one ellipsoid is inside the other.",
 ["inputs","configurations"],"all shapes, poses and point sets for which the solver reports success, within solver accuracy",
 "All solver-based tests need a licence that is absent, so none of this code is exercised by a passing test; the others check containment only, never optimality.",
 ["shape/ellipsoid.py","shape/poly.py","shape/box.py","shape/cylinder.py","shape/capsule.py","rigidbody.py"],[("mbe_of_points","shape/ellipsoid.py:mbe_of_points"),("mbe_of_ellipsoids","shape/ellipsoid.py:mbe_of_ellipsoids"),("mie","shape/poly.py:ConvexPolyhedron.mie"),("closed forms","shape/box.py:Box.mbe"),("contains_ellipsoid","shape/ellipsoid.py:Ellipsoid.contains_ellipsoid"),("RigidBody.mbes","rigidbody.py:RigidBody.mbes")],["mbe(...)","mie(...)","mbe_of_points","mbe_of_ellipsoids","contains_ellipsoid"])
p("C14","Containment constraints for optimisation describe exactly the shape",
 "For every shape, the convex constraints generated for a point variable are satisfied by exactly the points of the shape: optimising any linear function over them attains the shape's exact support value. With a scale s the constrained set is the shape scaled by s about the origin (so the constraint on mass times centre of mass with scale mass is the constraint on the centre of mass), for numeric and variable scales, and a batch of points constrains each point separately.",
 ["inputs","configurations"],"all shapes, poses, directions and scales, within solver accuracy",
 "Every test of this code needs a solver licence that is absent, and would test only axis directions of origin-centred shapes.",
 ["shape/poly.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","constraint.py"],[("must_contain","shape/ellipsoid.py:Ellipsoid.must_contain"),("must_contain","shape/cylinder.py:Cylinder.must_contain"),("must_contain","shape/capsule.py:Capsule.must_contain"),("must_contain","shape/poly.py:ConvexPolyhedron.must_contain"),("schur","constraint.py:schur")],["optimal value of linear objectives under must_contain"])
p("C15","Closest-point queries return the true distance and witnessing points",
 "For every pair of shapes the returned points lie in the respective shapes, their separation is the returned distance, and no two points of the shapes are closer; the distance is zero exactly when the shapes touch or overlap, is symmetric in the arguments, and is unchanged by moving both shapes together.",
 ["inputs","configurations"],"all pairs of supported shapes and poses, within solver accuracy",
 "The only test needs a solver licence that is absent.",
 ["closest.py"],[("closest_points","closest.py:closest_points")],["ClosestPointInfo.p1/p2/dist"])
p("C16","Converting between vertex and halfspace descriptions preserves the polyhedron",
 "Converting a span form to a face form or back, canonicalising either, pruning, taking a convex hull, and translating or rotating either form all describe exactly the same (correspondingly moved) set, for bounded, unbounded, conic and lower-dimensional polyhedra; canonical vertex lists and convex hulls contain exactly the extreme points, once each, and canonical face lists have no redundant face. Boundedness and cone queries agree with the set, and polyhedra that are unbounded are refused where only bounded ones are supported.",
 ["inputs"],"all finite generator sets and halfspace systems (including redundant, duplicate and degenerate ones) within floating-point reach of the backend",
 "Tests use one cube, one square and one triangle; redundancy, unbounded sets, duplicates and lower dimensions are barely sampled.",
 ["polydd.py","shape/poly.py"],[("SpanForm","polydd.py:SpanForm"),("FaceForm","polydd.py:FaceForm"),("convex_hull","polydd.py:convex_hull"),("ConvexPolyhedron constructors","shape/poly.py:ConvexPolyhedron.from_vertices")],["vertices","rays","A","b","bounded()","is_cone()"])
p("C17","Polyhedron intersection is exactly the common points, or None if none",
 "For all pairs of convex polyhedra (including boxes, flat polyhedra and mere face, edge or vertex contact) the intersection contains exactly the points common to both and its vertex list is exactly the set of its extreme points; the result is None exactly when there is no common point. Intersection is commutative, associative, idempotent, and commutes with rigid transforms.",
 ["inputs","histories"],"all pairs and sequences of bounded polyhedra in small rational position",
 "Tests intersect a handful of axis-aligned cubes.",
 ["shape/poly.py","polydd.py"],[("ConvexPolyhedron.intersect","shape/poly.py:ConvexPolyhedron.intersect"),("FaceForm.stack","polydd.py:FaceForm.stack")],["intersect(other)"])
p("C18","Random samplers return the requested number of points, all inside their target",
 "Every sampler (inside a box, ellipsoid, cylinder, capsule or polyhedron; on the surface of a box or ellipsoid; on the edges of a box; on the hypersphere or in the ball of any dimension; weight vectors; positive semidefinite matrices) returns an array of the requested shape in which every element belongs to its target set, for every shape size, pose, degenerate extent it supports, seed and requested array shape, including a single point.",
 ["inputs","configurations"],"all shapes, poses, seeds and requested array shapes",
 "Surface and edge samplers are only tested on origin-centred, unrotated shapes.",
 ["random.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","shape/poly.py"],[("random_points","shape/box.py:Box.random_points"),("random_points_on_surface","shape/box.py:Box.random_points_on_surface"),("random_points_on_edges","shape/box.py:Box.random_points_on_edges"),("random_points_on_surface","shape/ellipsoid.py:Ellipsoid.random_points_on_surface"),("random primitives","random.py:random_points_in_ball")],["returned arrays"])
p("C19","Random functions are reproducible from their seed and use only the given source",
 "Calling any random function twice with the same integer seed gives identical results, calling it with a generator gives what that generator's state determines and advances it (so successive calls differ), and without a seed successive calls differ; no call reads or changes NumPy's global random state.",
 ["histories","inputs"],"all random functions and interleavings of calls with seeds, generators and no seed",
 "No test repeats a call or checks where randomness came from.",
 ["random.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","shape/poly.py","inertial.py","spatial.py"],[("default_rng(rng) in every sampler","random.py:rejection_sample")],["returned arrays","generator state","numpy global state"])
p("C20","Rejection sampling returns exactly the accepted candidates or fails explicitly",
 "For every sequence of candidate batches, rejection sampling requests from the bounding shape only as many points as are still missing, returns exactly the accepted candidates (those in at least one target shape) in the order drawn, reshaped as requested, and never returns a point that was not drawn and accepted. It raises an error if and only if the allowed number of rounds is used up before enough points were accepted.",
 ["histories","inputs"],"all accept/reject patterns, batch counts, target shape unions and round limits",
 "Tests only look at the final points of three random runs and one impossible request.",
 ["random.py"],[("rejection_sample loop","random.py:rejection_sample")],["requests made to the bounding shape","returned points","raised error"],
 [dict(name="m",meaning="points accepted so far",where="random.py:rejection_sample"),dict(name="tries",meaning="rounds used",where="random.py:rejection_sample")])
p("C21","Uniform samplers have the distribution they claim",
 "Over many draws, points from the solid, surface and edge samplers documented as uniform have the mean, second moments and region frequencies of the uniform distribution on their target, in any pose and aspect ratio; ball and hypersphere samples in any dimension likewise.",
 ["inputs","configurations"],"all shapes, aspect ratios, poses and seeds, up to statistical error of the sample size",
 "Tests estimate one volume ratio for the unit ball, one ellipsoid and one cylinder; surface and edge distributions are untested.",
 ["random.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py"],[("area/length weighting","shape/box.py:Box.random_points_on_surface"),("radius scaling","random.py:random_points_in_ball"),("surface acceptance","shape/ellipsoid.py:Ellipsoid.random_points_on_surface")],["sample moments and region counts"])
p("C22","Grids are exactly the regular lattice points that lie in the shape",
 "The grid of a box is the full regular lattice with the requested number of points per dimension spanning it corner to corner in its own frame; the grid of any other shape is exactly the subset of its axis-aligned bounding box's lattice that the shape contains, each point once.",
 ["inputs","configurations"],"all shapes, poses and grid sizes (uniform and per-dimension)",
 "Tests check containment of grid points, not completeness, and no rotated boxes.",
 ["shape/base.py","shape/box.py","shape/poly.py"],[("Box.grid","shape/box.py:Box.grid"),("Shape.grid","shape/base.py:Shape.grid"),("ConvexPolyhedron.grid","shape/poly.py:ConvexPolyhedron.grid")],["grid(n)"])
p("C23","Polynomial and moment-matrix algebra is exact",
 "Polynomial evaluation, addition, degree, affine construction, localisation and monomial bases agree with ordinary polynomial arithmetic in every dimension and degree: evaluation distributes over addition, localising by a monomial multiplies the value by it, bases list every monomial up to the degree exactly once in graded order. The moment matrix's entries are the products of basis monomials, so at the moments of any finite mass distribution the numeric localising matrix of a polynomial equals the mass-weighted sum of the polynomial times the basis outer products, and the generated linear constraints accept exactly matrices with equal entries at equal moments.",
 ["inputs","programs"],"all polynomials, dimensions, degrees and points",
 "Tests use single-digit examples in at most three variables and one 1-D moment matrix; localising matrices are only exercised through unrunnable solver tests.",
 ["moment.py"],[("Polynomial","moment.py:Polynomial"),("MomentIndex","moment.py:MomentIndex"),("MomentMatrix","moment.py:MomentMatrix")],["evaluate","+","degree","basis","indices","localize","moment_constraints"])
p("C24","Realizability constraints never reject realizable parameters",
 "For every ellipsoid, box, convex polyhedron and cylinder in any pose, the inertial parameters of any non-negative mass distribution contained in the shape satisfy every family of density-realizability constraints the shape offers, whether the parameters are given as a pseudo-inertia matrix or as a parameter vector.",
 ["inputs","configurations"],"all shapes, poses, constraint families and mass distributions inside the shape, within solver accuracy",
 "The tests that would check this need a solver licence that is absent.",
 ["moment.py","constraint.py","shape/poly.py","shape/box.py","shape/cylinder.py","shape/ellipsoid.py"],[("moment_sdp_constraints","shape/poly.py:ConvexPolyhedron.moment_sdp_constraints"),("moment_vertex_constraints","shape/poly.py:ConvexPolyhedron.moment_vertex_constraints"),("moment_custom_vertex_constraints","shape/box.py:Box.moment_custom_vertex_constraints"),("moment_custom_vertex_constraints","shape/cylinder.py:Cylinder.moment_custom_vertex_constraints"),("moment_constraints","shape/ellipsoid.py:Ellipsoid.moment_constraints")],["optimal values under the constraints"])
p("C25","Realizability constraints reject parameters the shape cannot hold",
 "Under every realizability constraint family of a shape, the centre of mass cannot leave the shape, second moments about any point of its frame cannot exceed what the shape allows along its principal axes, the pseudo-inertia matrix is symmetric positive semidefinite, and a threshold eps makes its smallest eigenvalue at least eps without excluding realizable parameters that meet it; each bound is attained, for both parameter formats.",
 ["inputs","configurations"],"all shapes, poses, constraint families, directions and eps, within solver accuracy",
 "The tests that would check this need a solver licence that is absent, and none uses a non-zero eps.",
 ["constraint.py","moment.py","shape/poly.py","shape/box.py","shape/cylinder.py","shape/ellipsoid.py"],[("pim_must_equal_param_var / pim_psd","constraint.py:pim_psd"),("localizing constraints","moment.py:MomentMatrix.localizing_constraints"),("shape constraint families","shape/cylinder.py:Cylinder.moment_sdp_constraints")],["optimal values under the constraints"])
p("C26","The ellipsoid realizability test is exact",
 "For every ellipsoid (flat ones included) in any pose, the numeric realizability test accepts the parameters of every non-negative full-rank point-mass system inside the ellipsoid and of its solid and shell distributions, and rejects every parameter set that no mass distribution inside the ellipsoid can have: inconsistent parameters, a mass-weighted squared normalised radius above the mass, or mass off a flat ellipsoid's plane.",
 ["inputs","configurations"],"all ellipsoids, poses and parameter sets not within rounding of the decision boundary",
 "Tests cover unit disks and one segment, almost always unrotated, and never a full-dimensional ellipsoid.",
 ["shape/ellipsoid.py","inertial.py"],[("can_realize","shape/ellipsoid.py:Ellipsoid.can_realize"),("Q / degenerate Q","shape/ellipsoid.py:_Q_matrix")],["can_realize(params, eps)"])
p("C27","A body can realize exactly the combinations of what its shapes can realize",
 "For a rigid body of one or more shapes of any supported kinds, the generated constraints accept every sum of parameters realizable on the individual shapes (in particular all mass concentrated in any one of them), and bound the centre of mass and second moments by the union of the shapes and not more; for a single shape they coincide with that shape's own constraints, and eps applies to the total.",
 ["inputs","configurations"],"all lists of shapes, poses and mass splits, within solver accuracy",
 "The only test needs a solver licence that is absent.",
 ["rigidbody.py","moment.py","constraint.py"],[("RigidBody.moment_sdp_constraints","rigidbody.py:RigidBody.moment_sdp_constraints")],["optimal values under the constraints"])
p("C28","Operations never alter their operands or earlier results",
 "No query, conversion, combination, transform, sampling or constraint-generation call changes the observable state of the objects, arrays or lists passed to it, nor of any object created earlier; objects derived from others (transforms, copies, sums, bounding shapes) stay what they were when further objects are derived, and repeating a deterministic query gives the same answer.",
 ["histories"],"all sequences of API calls over a growing population of shared objects",
 "Tests build an object, use it once and never look at it, or at its inputs, again.",
 ["inertial.py","rigidbody.py","polydd.py","spatial.py","moment.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/capsule.py","shape/poly.py"],[("copying constructors and transforms","shape/box.py:Box.transform"),("value-returning arithmetic","inertial.py:InertialParameters.__add__"),("Polynomial.__add__ copy","moment.py:Polynomial.__add__")],["full projection of all live objects after every call"])
p("C29","Order-insensitive matrix comparison decides equality of row multisets",
 "For all pairs of equal-shaped matrices whose rows are either equal or clearly different, the order-insensitive comparison is true exactly when the two have the same rows with the same multiplicities, irrespective of row order; tolerances are passed through, and differently shaped matrices are refused.",
 ["inputs"],"all row multisets, orders and duplications up to the enumerated size",
 "One test with a few 2-row matrices; duplicate multiplicities are not enumerated.",
 ["test_util.py"],[("greedy matching","test_util.py:allclose_unordered")],["allclose_unordered(A,B)"])
p("C30","All descriptions of one ellipsoid agree",
 "For every ellipsoid of any dimension and pose, its shape matrix and inverse shape matrix, affine form, homogeneous quadratic form, rank, degeneracy, volume and the ellipsoids rebuilt from its shape matrix or affine form all describe the same set as its half extents, axes and centre; for flat ellipsoids rank, degeneracy and the inverse shape matrix remain exact.",
 ["inputs","configurations"],"all dimensions, half extents, poses",
 "Tests rebuild two origin-centred spheres.",
 ["shape/ellipsoid.py"],[("S/E/A/b/Q/rank/volume","shape/ellipsoid.py:Ellipsoid"),("from_shape_matrix/from_affine","shape/ellipsoid.py:Ellipsoid.from_shape_matrix")],["S","E","A","b","Q","rank","is_degenerate()","volume","from_shape_matrix","from_affine"])
p("C31","Calls are answered exactly when their arguments fit",
 "Every public call whose arguments do not fit is refused with an exception and never answered with a value: arrays, points, rotations, translations, matrices or optimisation variables of the wrong size or number of dimensions, negative or infinite sizes, negative masses, durations or constraint thresholds, lists that do not match in length, unbounded polyhedra, operands of different dimensions, and realizability or densities asked of shapes that are not three-dimensional. A call whose arguments all fit is answered, and a refused call leaves its operands as they were.",
 ["inputs","configurations"],"all public calls and all sizes, signs and dimensions of their arguments",
 "Tests pass well-formed arguments only.",
 ["inertial.py","spatial.py","util.py","polydd.py","moment.py","constraint.py","rigidbody.py","random.py","closest.py","shape/base.py","shape/box.py","shape/ellipsoid.py","shape/cylinder.py","shape/poly.py"],[("argument assertions of constructors","shape/box.py:Box.__init__"),("clean_transform","util.py:clean_transform"),("size assertions of inertial parameters","inertial.py:InertialParameters.from_vec"),("pim_must_equal_param_var","constraint.py:pim_must_equal_param_var"),("bounded polyhedra only","shape/poly.py:ConvexPolyhedron.__init__")],["exception or answer of every public call"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
