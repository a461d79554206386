-------------------------------- MODULE Args --------------------------------
(* Which calls are well formed.  A call e names an operation (e.f) and the sizes and signs of its arguments;   *)
(* a size is the sequence of the dimensions of an array, and an argument that is not in the record is omitted.  *)
(* Fits(e, d, d2) decides whether the arguments fit each other and the operands, which live in d and d2          *)
(* dimensions.  A call that fits is answered; any other is refused with an exception, and never with a value.    *)
EXTENDS Real
Opt0(e, k, sz) == k \in DOMAIN e => e[k] = sz
Pose(e, n) == Opt0(e, "rot", <<n, n>>) /\ Opt0(e, "ctr", <<n>>)
Flag(e, k) == k \in DOMAIN e /\ e[k]
PointsOf(sz, n) == sz = <<n>> \/ (Len(sz) = 2 /\ sz[2] = n)
Triangular(n) == \E k \in 1..n : 2 * n = k * (k + 1)
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)
MomSize(n, d) == Binomial(n + d, d)
Fits(e, d, d2) ==
  CASE e.f = "box" -> e.he = <<3>> /\ ~Flag(e, "neg") /\ ~Flag(e, "inf") /\ Pose(e, 3)
    [] e.f = "ell" -> Len(e.he) = 1 /\ ~Flag(e, "neg") /\ ~Flag(e, "inf") /\ Pose(e, e.he[1])
    [] e.f \in {"cube", "sphere"} -> ~Flag(e, "neg") /\ ~Flag(e, "inf")
    [] e.f = "sides" -> e.v = <<3>> /\ ~Flag(e, "neg")
    [] e.f = "corners" -> e.v = <<3>> /\ e.w = <<3>>
    [] e.f = "bound" -> Len(e.P) = 2 /\ e.P[2] = 3 /\ e.P[1] >= 1
    [] e.f = "shape_matrix" -> Len(e.A) = 2 /\ e.A[1] = e.A[2] /\ Opt0(e, "ctr", <<e.A[1]>>)
    [] e.f = "affine" -> Len(e.A) = 2 /\ e.A[1] = e.A[2] /\ e.b = <<e.A[1]>>
    [] e.f = "capsule" -> e.of3 = "cyl"
    [] e.f = "rotc" -> e.rot = <<d, d>>
    [] e.f = "contains_ell" -> d = d2
    [] e.f \in {"H2I", "I2H"} -> e.A = <<3, 3>>
    [] e.f = "jacobian" -> e.a = <<3>>
    [] e.f = "eval" -> e.x = <<e.n>>
    [] e.f = "poly.plus" -> e.n1 = e.n2
    [] e.f = "poly.terms" -> e.n1 = e.n2
    [] e.f = "wrench" -> ~Flag(e, "raw")
    [] e.f = "sample" -> \A i \in DOMAIN e.sh : e.sh[i] >= 1
    [] e.f = "schur" -> e.B[1] = e.A[1] /\ e.C[1] = e.B[2] /\ e.A[2] + e.B[2] = e.B[1] + e.C[2]   \* the four blocks tile a rectangle
    [] e.f = "cyl" -> ~Flag(e, "negL") /\ ~Flag(e, "negr") /\ Pose(e, 3)
    [] e.f = "simplex" -> Len(e.he) = 1 /\ ~Flag(e, "neg") /\ ~Flag(e, "zero") /\ ~Flag(e, "inf")
    [] e.f = "rays" -> e.R = 0                                    \* a polyhedron of a span form with that many rays
    [] e.f \in {"sf.transform", "ff.transform"} -> Opt0(e, "rot", <<e.n, e.n>>) /\ Opt0(e, "t", <<e.n>>)
    [] e.f \in {"stack", "mbee", "poly.localize", "locmat"} -> e.n1 = e.n2
    [] e.f = "mie" -> e.b = <<e.A[1]>>
    [] e.f = "rmse" -> e.th = <<10>> /\ Len(e.Y) = 3 /\ e.Y[3] = 10 /\ e.ws = <<e.Y[1], e.Y[2]>>
    [] e.f = "pimvec" -> e.v = <<10>>
    [] e.f = "localize" -> e.M = <<MomSize(e.n, e.d), MomSize(e.n, e.d)>>
    [] e.f = "sv.plus" -> e.other = "sv"
    [] e.f = "diag" -> e.mean = "sv" /\ e.cov = "sv"
    [] e.f = "verts" -> Len(e.V) = 2 /\ e.V[1] >= 1
    \* the halfspaces are x1 <= 1, -x1 <= 1, x2 <= 1, ...: bounded only when all of them are there
    [] e.f = "halfspaces" -> e.b = <<e.A[1]>> /\ e.A[1] = 2 * e.A[2]
    [] e.f = "transform" -> Opt0(e, "rot", <<d, d>>) /\ Opt0(e, "t", <<d>>)
    [] e.f \in {"contains", "on_surface", "must_contain"} -> PointsOf(e.pts, d)
    [] e.f = "grid" -> e.n >= 1
    [] e.f = "density" -> d = 3 /\ ~Flag(e, "neg")
    [] e.f = "masses" -> d = 3 /\ e.m = <<e.nv>> /\ ~Flag(e, "neg")
    [] e.f \in {"family", "body.family"} -> d = 3 /\ e.var \in {<<4, 4>>, <<10>>} /\ ~Flag(e, "negeps")
    [] e.f = "can_realize" -> d = 3
    [] e.f = "par" -> ~Flag(e, "neg") /\ Opt0(e, "com", <<3>>) /\ Opt0(e, "h", <<3>>) /\ Opt0(e, "H", <<3, 3>>) /\ Opt0(e, "I", <<3, 3>>)
                      /\ ~({"com", "h"} \subseteq DOMAIN e) /\ ~({"H", "I"} \subseteq DOMAIN e)
    [] e.f = "par.vec" -> e.v = <<10>>
    [] e.f = "par.pim" -> e.J = <<4, 4>>
    [] e.f = "par.pm" -> Len(e.m) = 1 /\ e.P = <<e.m[1], 3>>
    [] e.f \in {"par.transform", "body.transform"} -> Opt0(e, "rot", <<3, 3>>) /\ Opt0(e, "t", <<3>>)
    [] e.f = "par.plus" -> e.other = "par" \/ (e.other = "zero" /\ e.side = "l")    \* so that sum() works
    [] e.f = "body.plus" -> e.other = "body" \/ (e.other = "zero" /\ e.side = "l")
    [] e.f = "vech" -> Len(e.a) = 2 /\ e.a[1] = e.a[2]
    [] e.f = "unvech" -> Len(e.a) = 1 /\ Triangular(e.a[1])
    [] e.f \in {"skew3", "lift3"} -> e.a = <<3>>
    [] e.f = "frame" -> Opt0(e, "rot", <<e.n, e.n>>) /\ Opt0(e, "t", <<e.n>>)
    [] e.f = "times" -> ~Flag(e, "negT") /\ ~Flag(e, "negs")
    [] e.f = "sv" -> e.lin = <<3>> /\ e.ang = <<3>>
    [] e.f = "sv.vec" -> e.v = <<6>>
    [] e.f = "index" -> e.n1 = e.n2
    [] e.f \in {"moments", "substitute"} -> e.M = <<MomSize(e.n, e.d), MomSize(e.n, e.d)>>
    [] e.f = "psd" -> e.J = <<4, 4>> /\ ~Flag(e, "negeps")
    [] e.f = "closest" -> d = 3 /\ d2 = 3
    [] e.f = "intersect" -> d = d2 /\ e.k2 \in {"poly", "box"}
    [] e.f = "contains_poly" -> d = d2
    [] e.f = "hull" -> Len(e.P) = 2
    [] e.f = "face" -> Len(e.A) = 2 /\ e.b = <<e.A[1]>> /\ ("Ae" \in DOMAIN e => e.Ae[2] = e.A[2] /\ e.be = <<e.Ae[1]>>)
    [] e.f = "span" -> LET N == {e[k][2] : k \in {"V", "R", "L"} \cap DOMAIN e} IN Cardinality(N) = 1
    [] e.f = "sphere.pts" -> e.dim >= 0
    [] e.f = "ball.pts" -> e.dim >= 1

ArgOps == {"arg.call"}
OpDim(hp, e, k) == IF k \in DOMAIN e THEN DimOf(hp[e[k]]) ELSE 0
ArgStep(hp, e) ==
  IF Fits(e, OpDim(hp, e, "of"), OpDim(hp, e, "of2")) THEN Res(hp, Must(e.exc = "", "refused a call whose arguments fit: " \o e.exc))
  ELSE Refused(e, hp)
=============================================================================
