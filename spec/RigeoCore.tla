----------------------------- MODULE RigeoCore -----------------------------
(* The state machine of a session with the library: a heap of named objects (inertial parameters,    *)
(* shapes, rigid bodies, ...), and one action per public operation.  An event e records the operation  *)
(* (e.op), its exact arguments, the names of the operands and of the object created (e.id), whether   *)
(* it raised (e.exc), and what was observed (e.o).  Step(hp, e) is the transition: the next heap, and   *)
(* the set of clauses of the specification the observation violates.                                  *)
EXTENDS Inertia, Geom

Res(hp, bad) == [hp |-> hp, bad |-> bad]
Put(hp, id, obj) == (id :> obj) @@ hp
\* the operation must not raise; if it did, nothing else is judged.  ("NumericalRefusal" is the polyhedral library
\* reporting that floating-point arithmetic is not enough for the given coordinates: an explicit refusal.)
NoExc(e, r) == IF e.exc = "" THEN r ELSE [hp |-> r.hp, bad |-> IF e.exc = "NumericalRefusal" THEN {} ELSE {"raised " \o e.exc}]
\* a query: the heap stays, and the clauses are judged only when there is an answer
ReadOnly(e, hp, bad) == Res(hp, IF e.exc = "" THEN bad ELSE IF e.exc = "NumericalRefusal" THEN {} ELSE {"raised " \o e.exc})
FromLibrary(exc) == exc \notin {"", "NotFromLibrary", "Timeout", "ProcessDied"}
Refused(e, hp) == Res(hp, IF ~FromLibrary(e.exc) THEN {"accepted what it must refuse"} ELSE {})

\* ------------------------------------------------------------------ inertial parameters
ParOps == {"par.new", "par.vec", "par.pim", "par.pm", "par.zero", "par.random", "par.conv", "par.read",
           "par.transform", "par.add", "par.sum", "par.consistent", "par.same"}
ParStep(hp, e) ==
  CASE e.op = "par.new" -> IF CtorRefused(e) THEN Refused(e, hp) ELSE NoExc(e, Res(Put(hp, e.id, ParCtor(e)), {}))
    [] e.op = "par.vec" -> NoExc(e, Res(Put(hp, e.id, ParOfVec(e.v)), {}))
    [] e.op = "par.pim" -> NoExc(e, Res(Put(hp, e.id, ParOfPim(e.J)), {}))
    [] e.op = "par.pm"  -> NoExc(e, Res(Put(hp, e.id, ParOfPm(e.pm)), {}))
    [] e.op = "par.zero" -> NoExc(e, Res(Put(hp, e.id, ParZero), {}))
    [] e.op = "par.random" ->
         IF e.exc = "" /\ ObsIsPar(e.o) THEN Res(Put(hp, e.id, ParFromObs(e.o)), {})
         ELSE Res(Put(hp, e.id, ParZero), {"random parameters"})
    \* converting to a representation and back denotes the same distribution
    [] e.op = "par.conv" -> LET o == hp[e.of] IN
         NoExc(e, Res(Put(hp, e.id, MkPar(o.m, o.h, o.H, o.sm, o.sh, RMul("3", sHc(o)))), {}))
    [] e.op = "par.read" -> ReadOnly(e, hp, ReadClauses(hp[e.of], e.o))
    [] e.op = "par.transform" ->
         LET o == hp[e.of] n == ParTransform(o, RotArg(e, 3), VecArg(e, "t", 3)) IN
         NoExc(e, Res(Put(hp, e.id, n), {}))
    [] e.op = "par.add" -> NoExc(e, Res(Put(hp, e.id, ParAdd(hp[e.x], hp[e.y])), {}))
    [] e.op = "par.sum" -> NoExc(e, Res(Put(hp, e.id, ParSum([i \in DOMAIN e.xs |-> hp[e.xs[i]]])), {}))
    [] e.op = "par.consistent" ->
         LET o == hp[e.of] eps == Arg(e, "eps", "0") IN
         ReadOnly(e, hp, Must(e.o.ans.t = "bool", "answer is a truth value")
                      \cup (IF e.o.ans.t = "bool" /\ ConsistentYes(o, eps) THEN Must(e.o.ans.v, "consistent parameters rejected") ELSE {})
                      \cup (IF e.o.ans.t = "bool" /\ ConsistentNo(o, eps) THEN Must(~e.o.ans.v, "inconsistent parameters accepted") ELSE {}))
    [] e.op = "par.same" ->
         LET a == hp[e.x] b == hp[e.y]
             d == RAbs(RSub(a.m, b.m))
             s == RMax(PimScale(a), PimScale(b))
             clearly(u, v) == RLt(RAdd("1/100000", RMul("1/1000", RMax(RAbs(u), RAbs(v)))), RAbs(RSub(u, v)))
             diff == clearly(a.m, b.m) \/ (\E i \in 1..3 : clearly(a.h[i], b.h[i]) \/ \E j \in 1..3 : clearly(a.H[i][j], b.H[i][j]))
             eq == a.m = b.m /\ a.h = b.h /\ a.H = b.H
         IN ReadOnly(e, hp, Must(e.o.ans.t = "bool", "answer is a truth value")
              \cup (IF e.o.ans.t = "bool" /\ eq THEN Must(e.o.ans.v, "equal parameters reported different") ELSE {})
              \cup (IF e.o.ans.t = "bool" /\ diff THEN Must(~e.o.ans.v, "different parameters reported equal") ELSE {}))

\* ------------------------------------------------------------------ shapes
\* construction routes: e.how names the constructor, the other fields are its arguments
\* half extents below the resolution of the library (1e-8) are flat directions
Flattened(he) == [i \in DOMAIN he |-> IF RLe(he[i], "1/100000000") THEN "0" ELSE he[i]]
ShapeOf(hp, e) ==
  LET n == IF "he" \in DOMAIN e THEN Len(e.he) ELSE 3
      R == RotArg(e, n) c == VecArg(e, "c", n) IN
  CASE e.how = "box" -> MkBox(e.he, c, R)
    [] e.how = "cube" -> MkBox(<<e.a, e.a, e.a>>, c, R)
    [] e.how = "side_lengths" -> MkBox([i \in 1..3 |-> Half(e.sl[i])], c, R)
    [] e.how = "two_vertices" -> MkBox([i \in 1..3 |-> Half(RAbs(RSub(e.v1[i], e.v2[i])))], VScale("1/2", VAdd(e.v1, e.v2)), Eye(3))
    [] e.how = "points_to_bound" ->
         LET lo == [i \in 1..3 |-> RMinSeq([j \in DOMAIN e.pts |-> e.pts[j][i]])]
             hi == [i \in 1..3 |-> RMaxSeq([j \in DOMAIN e.pts |-> e.pts[j][i]])] IN
         MkBox([i \in 1..3 |-> Half(RSub(hi[i], lo[i]))], VScale("1/2", VAdd(lo, hi)), Eye(3))
    [] e.how = "ell" -> MkEll(Flattened(e.he), c, R)
    [] e.how = "sphere" -> LET d == IF "c" \in DOMAIN e THEN Len(e.c) ELSE 3 IN
                           MkEll([i \in 1..d |-> e.r], VecArg(e, "c", d), Eye(d))
    \* shape matrix / affine form given through exact axes: S = R diag(1/he^2) R^T, A = R diag(1/he) R^T, b = -A c
    [] e.how \in {"shape_matrix", "affine"} -> MkEll(e.he, c, R)
    [] e.how = "cyl" -> MkCyl(e.L, e.r, c, R)
    [] e.how = "cap" -> MkCap(e.L, e.r, c, R)
    [] e.how = "poly" -> MkPoly(IF Arg(e, "prune", FALSE) THEN Extreme(e.V, Len(e.V[1])) ELSE e.V, Len(e.V[1]))
    [] e.how = "simplex" -> LET d == Len(e.ext) IN
         MkPoly(<<VZero(d)>> \o [i \in 1..d |-> VScale(e.ext[i], UnitV(i, d))], d)
    [] e.how = "halfspaces" -> LET d == Len(e.A[1]) IN MkPoly(GenDesc(e.A, e.b, d).V, d)
    [] e.how = "as_poly" -> AsPoly(hp[e.of])
    \* the same object rebuilt from a stored one
    [] e.how = "rebuild" -> hp[e.of]
    [] e.how = "capsule_of" -> LET s == hp[e.of] IN MkCap(s.L, s.r, s.c, s.R)
\* boxes and ellipsoids with exact extents around a shape
AabbOf(s) == LET lo == AabbLo(s) hi == AabbHi(s) IN
             MkBox(VScale("1/2", VSub(hi, lo)), VScale("1/2", VAdd(hi, lo)), Eye(3))
MbbOf(s) == CASE s.k = "ell" -> MkBox(s.he, s.c, s.R)
              [] s.k = "cyl" -> MkBox(<<s.r, s.r, Half(s.L)>>, s.c, s.R)
              [] s.k = "cap" -> MkBox(<<s.r, s.r, RAdd(Half(s.L), s.r)>>, s.c, s.R)
\* maximal-volume inscribed box with the shape's own axes
\* the inscribed box of a flat ellipsoid is the largest one within the subspace the ellipsoid spans
EllRank(s) == Cardinality({i \in DOMAIN s.he : s.he[i] /= "0"})
MibOf(s) == CASE s.k = "ell" -> MkBox(VScale(RSqrt(RMk(1, IF EllRank(s) = 0 THEN 1 ELSE EllRank(s))), s.he), s.c, s.R)
              [] s.k = "cyl" -> LET a == RMul(s.r, RSqrt("1/2")) IN MkBox(<<a, a, Half(s.L)>>, s.c, s.R)

\* attributes read from a shape; scale of the coordinates for tolerances
\* the volume of the unit d-ball (rounded pi), by its recursion V(d) = 2 pi / d * V(d - 2)
Pi == "31415926535897932384626433832795028841971693993751/10000000000000000000000000000000000000000000000000"
RECURSIVE BallVol(_)
BallVol(d) == IF d = 0 THEN "1" ELSE IF d = 1 THEN "2" ELSE RMul(RDiv(RMul("2", Pi), RMk(d, 1)), BallVol(d - 2))
SamePointList(ob, V, t) == OMat(ob, V, t)
\* the rows of ob are the points V in some order, each exactly once
SamePointBag(ob, V, t) ==
  /\ ob.t = "mat" /\ Len(ob.v) = Len(V)
  /\ (Len(V) > 0 => ob.sh[2] = Len(V[1]))
  /\ MIsNum(ob.v)
  /\ \A i \in DOMAIN V : \E j \in DOMAIN ob.v : VNearT(ob.v[j], V[i], t)
  /\ \A j \in DOMAIN ob.v : \E i \in DOMAIN V : VNearT(ob.v[j], V[i], t)
IsOrthoObs(ob, n) == OIsMat(ob, n, n) /\ MNearT(MatMul(ob.v, Transp(ob.v)), Eye(n), Eps9)
\* the rotation read from a box or ellipsoid describes the same axes: R diag(he^2) R^T agrees; for boxes every
\* column is the right axis up to sign when the extents differ
AxesAgree(ob, s) ==      \* half extents and axes may be listed in any consistent order
  LET n == Len(s.he) s2 == Sq(RMaxSeq(s.he)) IN
  /\ IsOrthoObs(ob.rotation, n) /\ OIsVec(ob.half_extents, n)
  /\ MNearT(MatMul(MatMul(ob.rotation.v, Diag(VMul(ob.half_extents.v, ob.half_extents.v))), Transp(ob.rotation.v)), InvShape(s), Tol(RMul("4", s2)))
Sorted(v) == SortSeq(v, LAMBDA a, b : RLt(a, b))
SameExtents(ob, he, t) == OIsVec(ob, Len(he)) /\ VNearT(Sorted(ob.v), Sorted(he), t)
ReadShape(s, ob) ==
  LET t == Tol(RAdd(ShapeScale(s), "0"))
      te == IF s.k = "poly" THEN t ELSE Tol(IF s.k \in {"box", "ell"} THEN RMaxSeq(s.he) ELSE RAdd(s.L, s.r))
      \* no volume: below what a sheet of the thickness of rounding would have
      vol(x, y) == ONum(x, y, RMul(Eps9, IF y = "0" /\ s.k = "box" THEN RPow(RMul("2", RMaxSeq(s.he)), 3) ELSE y)) IN
  Must(ob.kind.v = s.k, "kind of shape") \cup
  (IF ob.kind.v # s.k THEN {} ELSE
   CASE s.k = "box" ->
        Must(SameExtents(ob.half_extents, s.he, te), "half extents") \cup Must(OVec(ob.center, s.c, t), "centre")
        \cup Must(AxesAgree(ob, s), "axes")
        \cup Must(OIsVec(ob.half_extents, 3) /\ OVec(ob.side_lengths, VScale("2", ob.half_extents.v), te), "side lengths")
        \cup Must(vol(ob.volume, RMul("8", RProd(s.he))), "volume")
        \cup Must(ONum(ob.diaglen, RMul("2", RSqrt(Norm2(s.he))), te), "diagonal length")
        \cup Must(OMat(ob.vertices, BoxVertices(s), RMul("4", t)) \/ SamePointBag(ob.vertices, BoxVertices(s), RMul("4", t)), "vertices")
        \cup Must(OIsMat(ob.A, 6, 3) /\ OIsVec(ob.b, 6) /\
                  \A i \in 1..8 : \A j \in 1..6 :
                     RLe(RDot(ob.A.v[j], BoxVertices(s)[i]), RAdd(ob.b.v[j], RMul("8", t))), "faces valid at vertices")
        \cup Must(OIsMat(ob.A, 6, 3) /\ OIsVec(ob.b, 6) /\
                  \A a \in 1..3 : \A sg \in {"1", "-1"} : \E j \in 1..6 :
                     \* some face is tight on the whole facet (its centre), with outward normal along the axis
                     LET n == VScale(sg, Col(s.R, a)) IN
                       VNearT(ob.A.v[j], n, Eps9) /\
                       NearT(ob.b.v[j], RAdd(RDot(n, s.c), s.he[a]), RMul("8", t)), "faces tight")
     [] s.k = "ell" ->
        Must(SameExtents(ob.half_extents, s.he, te), "half extents") \cup Must(OVec(ob.center, s.c, t), "centre")
        \cup Must(AxesAgree(ob, s), "axes")
     [] s.k \in {"cyl", "cap"} ->
        Must(ONum(ob.length, s.L, te), "length") \cup Must(ONum(ob.radius, s.r, te), "radius")
        \cup Must(OVec(ob.center, s.c, t), "centre")
        \cup Must(OMat(ob.endpoints, Endpoints(s), RMul("2", t)) \/ SamePointBag(ob.endpoints, Endpoints(s), RMul("2", t)), "end points")
        \cup Must(IsOrthoObs(ob.rotation, 3) /\
                  (VNearT(Col(ob.rotation.v, 3), AxisOf(s), Eps9) \/ VNearT(Col(ob.rotation.v, 3), VNeg(AxisOf(s)), Eps9)), "axis")
        \cup (IF s.k = "cyl" THEN
                Must(vol(ob.volume, RMul(Pi, RMul(Sq(s.r), s.L))), "volume")
                \cup Must(OVec(ob.longitudinal_axis, AxisOf(s), Eps9) \/ OVec(ob.longitudinal_axis, VNeg(AxisOf(s)), Eps9), "longitudinal axis")
                \cup Must(ob.transverse_axes.t = "mat" /\ ob.transverse_axes.sh = <<3, 2>> /\
                          LET T == Transp(ob.transverse_axes.v) IN
                          NearT(Norm2(T[1]), "1", Eps9) /\ NearT(Norm2(T[2]), "1", Eps9) /\ NearT(RDot(T[1], T[2]), "0", Eps9) /\
                          NearT(RDot(T[1], AxisOf(s)), "0", Eps9) /\ NearT(RDot(T[2], AxisOf(s)), "0", Eps9), "transverse axes")
              ELSE Must(ONum(ob.full_length, RAdd(s.L, RMul("2", s.r)), te), "full length"))
     [] s.k = "poly" -> Must(SamePointBag(ob.vertices, s.V, RMul("4", t)), "vertices")
        \cup Must(ob.nv.v = RInt(Len(s.V)), "number of vertices") \cup Must(ob.dim.v = RInt(s.d), "dimension"))

\* ---- the equivalent descriptions of an ellipsoid ----
RepClauses(s, ob) ==
  LET n == Len(s.he)
      mx == RMaxSeq(s.he)
      flat == \E i \in 1..n : s.he[i] = "0"
      inv == [i \in 1..n |-> IF s.he[i] = "0" THEN "0" ELSE RDiv("1", s.he[i])]
      im == RMaxSeq(inv)
      S == MatMul(MatMul(s.R, Diag(VMul(inv, inv))), Transp(s.R))
      A == MatMul(MatMul(s.R, Diag(inv)), Transp(s.R))
      b == VNeg(MatVec(A, s.c))
      c1 == RAdd(VMaxAbs(s.c), mx)
      Sc == MatVec(S, s.c)
      Q == Block(MScale("-1", S), [i \in 1..n |-> <<Sc[i]>>], <<Sc>>, << <<RSub("1", RDot(s.c, Sc))>> >>)
      sS == RMul("4", Sq(im))
  IN Must(OMat(ob.E, InvShape(s), Tol(RMul("4", Sq(mx)))), "E")
  \cup Must(ob.rank.t = "num" /\ ob.rank.v = RInt(Cardinality({i \in 1..n : s.he[i] # "0"})), "rank")
  \cup Must(OBool(ob.degenerate, flat), "degeneracy")
  \cup Must(ob.dim.v = RInt(n), "dimension")
  \cup Must(ONum(ob.volume, RMul(BallVol(n), RProd(s.he)), RMul(Eps9, RMul(BallVol(n), IF flat THEN RPow(mx, n) ELSE RProd(s.he)))), "volume")
  \cup (IF flat THEN {} ELSE
       Must(OMat(ob.S, S, Tol(sS)), "S")
  \cup Must(OMat(ob.A, A, Tol(RMul("4", im))), "A")
  \cup Must(OVec(ob.b, b, Tol(RMul(RMul("4", im), c1))), "b")
  \cup Must(ob.Q.t = "mat" /\ MIsNum(ob.Q.v) /\ ob.Q.sh = <<n + 1, n + 1>> /\
            \A i, j \in 1..(n + 1) : NearT(ob.Q.v[i][j], Q[i][j],
               Tol(IF i <= n /\ j <= n THEN sS ELSE IF i <= n \/ j <= n THEN RMul(sS, c1) ELSE RAdd("1", RMul(sS, Sq(c1))))), "Q"))

AnsClauses(ob, s, pts, t, e, Y(_, _, _, _), N(_, _, _, _)) ==   \* ob.batch: bools, ob.single: bools
  LET n == Len(pts) IN
  IF ~OBools(ob.batch, n) THEN {"batch answer has one truth value per point"} ELSE
     Must(\A i \in 1..n : Y(s, pts[i], t, e) => ob.batch.v[i], "answers false where it must answer true")
  \cup Must(\A i \in 1..n : N(s, pts[i], t, e) => ~ob.batch.v[i], "answers true where it must answer false")
  \cup Must(OBools(ob.single, n) /\ \A i \in 1..n :
              (Y(s, pts[i], t, e) => ob.single.v[i]) /\ (N(s, pts[i], t, e) => ~ob.single.v[i]), "single-point answers")
SurfY(s, p, t, e) == OnSurfaceYes(s, p, t, e)
SurfN(s, p, t, e) == OnSurfaceNo(s, p, t, e)
DefTol == "1/100000000"
\* rounding allowance for membership of points of magnitude up to that of the shape
RoundOf(s, pts) == RMul("1/10000000000000", RAdd(RMul("4", ShapeScale(s)), RMaxSeq([i \in DOMAIN pts |-> VMaxAbs(pts[i])])))
\* in normalised measures rounding is amplified by 1/he
RoundAmp(s) == IF s.k = "ell" THEN LET nz == SelectSeq(s.he, LAMBDA x : x # "0") IN
                    IF nz = <<>> THEN "1" ELSE RMax("1", RDiv("4", RMinSeq(nz)))
               ELSE IF s.k \in {"cyl", "cap"} THEN
                    LET nz == SelectSeq(<<s.r, Half(s.L)>>, LAMBDA x : x # "0") IN
                    IF nz = <<>> THEN "1" ELSE RMax("1", RDiv("4", RMinSeq(nz)))
               ELSE "1"
RndFor(s, pts) == RMul(RoundAmp(s), RoundOf(s, pts))
\* Cases in which every quantity a membership computation can involve is exactly representable: axis-aligned
\* (up to a signed permutation) shapes of dyadic position whose sizes are powers of two, and dyadic points.
\* There is no rounding to allow for, so with a tolerance of zero the boundary itself is decided.
Dyadic(x) == RLe(RAbs(x), "64") /\ RInt(RFloor(RMul("16", x))) = RMul("16", x)
Pow2 == {"0", "1/4", "1/2", "1", "2", "4", "8"}
ExactCase(s, pts) ==
  /\ s.k # "poly"
  /\ \A i \in DOMAIN s.R : \A j \in DOMAIN s.R[i] : s.R[i][j] \in {"0", "1", "-1"}
  /\ \A i \in DOMAIN s.c : Dyadic(s.c[i])
  /\ CASE s.k = "box" -> \A i \in DOMAIN s.he : Dyadic(s.he[i])
       [] s.k = "ell" -> \A i \in DOMAIN s.he : s.he[i] \in Pow2
       [] OTHER -> s.r \in Pow2 /\ s.L \in Pow2
  /\ \A i \in DOMAIN pts : \A j \in DOMAIN pts[i] : Dyadic(pts[i][j])
RndQ(e, s, pts) == IF Arg(e, "exact", FALSE) /\ ExactCase(s, pts) THEN "0" ELSE RndFor(s, pts)

ShapeOps == {"shape.new", "shape.bad", "shape.transform", "shape.rotc", "shape.read", "shape.contains", "shape.on_surface",
             "shape.contains_poly", "ell.reps", "shape.same", "shape.aabb", "shape.mbb", "shape.mib"}
ShapeStep(hp, e) ==
  CASE e.op = "shape.new" -> NoExc(e, Res(Put(hp, e.id, ShapeOf(hp, e)), {}))
    \* constructions that have to be refused
    [] e.op = "shape.bad" -> Refused(e, hp)
    [] e.op = "shape.transform" ->
         LET s == hp[e.of] n == DimOf(s) IN
         NoExc(e, Res(Put(hp, e.id, Transform(s, RotArg(e, n), VecArg(e, "t", n))), {}))
    [] e.op = "shape.rotc" -> LET s == hp[e.of] IN
         NoExc(e, Res(Put(hp, e.id, RotateAboutCenter(s, RotArg(e, DimOf(s)))), {}))
    [] e.op = "shape.read" -> ReadOnly(e, hp, ReadShape(hp[e.of], e.o))
    [] e.op = "shape.contains" -> LET s == hp[e.of] IN
         ReadOnly(e, hp, AnsClauses(e.o, s, e.pts, Arg(e, "tol", DefTol), RndQ(e, s, e.pts), MustAccept, MustReject))
    [] e.op = "shape.on_surface" -> LET s == hp[e.of] IN
         ReadOnly(e, hp, AnsClauses(e.o, s, e.pts, Arg(e, "tol", DefTol), RndQ(e, s, e.pts), SurfY, SurfN))
    [] e.op = "shape.contains_poly" ->
         LET s == hp[e.of] q == hp[e.poly] V == VerticesOf(q) t == Arg(e, "tol", DefTol) r == RndFor(s, V)
             y == \A i \in DOMAIN V : MustAccept(s, V[i], t, r)
             n == \E i \in DOMAIN V : MustReject(s, V[i], t, r) IN
         ReadOnly(e, hp, Must(e.o.ans.t = "bool", "answer is a truth value")
            \cup (IF e.o.ans.t = "bool" /\ y THEN Must(e.o.ans.v, "contained polyhedron reported not contained") ELSE {})
            \cup (IF e.o.ans.t = "bool" /\ n THEN Must(~e.o.ans.v, "protruding polyhedron reported contained") ELSE {}))
    [] e.op = "shape.same" ->
         LET a == hp[e.x] b == hp[e.y]
             t == RMul("10", Arg(e, "tol", DefTol))
             s == RAdd(RMax(ShapeScale(a), ShapeScale(b)), "1")
             kinds == a.k = b.k \/ (a.k \in {"box", "poly"} /\ b.k \in {"box", "poly"})
             y == kinds /\ SameSet(a, b)
             n == ~kinds \/ DiffBy(a, b, RMul(RMul("100", t), s)) IN
         ReadOnly(e, hp, Must(e.o.ans.t = "bool", "answer is a truth value")
            \cup (IF e.o.ans.t = "bool" /\ y THEN Must(e.o.ans.v, "equal shapes reported different") ELSE {})
            \cup (IF e.o.ans.t = "bool" /\ n THEN Must(~e.o.ans.v, "different shapes reported equal") ELSE {}))
    [] e.op = "ell.reps" -> ReadOnly(e, hp, RepClauses(hp[e.of], e.o))
    [] e.op = "shape.aabb" -> NoExc(e, Res(Put(hp, e.id, AabbOf(hp[e.of])), {}))
    [] e.op = "shape.mbb"  -> NoExc(e, Res(Put(hp, e.id, MbbOf(hp[e.of])), {}))
    [] e.op = "shape.mib"  -> NoExc(e, Res(Put(hp, e.id, MibOf(hp[e.of])), {}))

\* ------------------------------------------------------------------ rigid bodies
BodyOps == {"body.new", "body.add", "body.sum", "body.transform", "body.read"}
MkBody(shapes, par) == [k |-> "body", shapes |-> shapes, par |-> par]
BodyAdd(a, b) == MkBody(a.shapes \o b.shapes, ParAdd(a.par, b.par))
RECURSIVE BodySum(_)
BodySum(s) == IF Len(s) = 1 THEN s[1] ELSE BodyAdd(BodySum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
ReadBody(b, ob) ==
     Must(Len(ob.shapes) = Len(b.shapes) /\ \A i \in DOMAIN b.shapes : ReadShape(b.shapes[i], ob.shapes[i]) = {}, "shapes of the body, in order")
  \cup ReadClauses(b.par, ob.params)
BodyStep(hp, e) ==
  CASE e.op = "body.new" -> NoExc(e, Res(Put(hp, e.id, MkBody([i \in DOMAIN e.shapes |-> hp[e.shapes[i]]],
                                      IF "par" \in DOMAIN e THEN hp[e.par] ELSE ParZero)), {}))
    [] e.op = "body.add" -> NoExc(e, Res(Put(hp, e.id, BodyAdd(hp[e.x], hp[e.y])), {}))
    [] e.op = "body.sum" -> NoExc(e, Res(Put(hp, e.id, BodySum([i \in DOMAIN e.xs |-> hp[e.xs[i]]])), {}))
    [] e.op = "body.transform" ->
         LET b == hp[e.of] R == RotArg(e, 3) t == VecArg(e, "t", 3) IN
         NoExc(e, Res(Put(hp, e.id, MkBody([i \in DOMAIN b.shapes |-> Transform(b.shapes[i], R, t)], ParTransform(b.par, R, t))), {}))
    [] e.op = "body.read" -> ReadOnly(e, hp, ReadBody(hp[e.of], e.o))
=============================================================================
