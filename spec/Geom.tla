------------------------------- MODULE Geom -------------------------------
(* Shapes as exact point sets.  Abstract state of a shape object:                                     *)
(*   [k |-> "box",  he, c, R]      {R y + c : |y_i| <= he_i}                                          *)
(*   [k |-> "ell",  he, c, R]      {R y + c : sum (y_i/he_i)^2 <= 1, y_i = 0 where he_i = 0}          *)
(*   [k |-> "cyl",  L, r, c, R]    {R y + c : |y_3| <= L/2, y_1^2 + y_2^2 <= r^2}                     *)
(*   [k |-> "cap",  L, r, c, R]    points within r of the segment of length L                         *)
(*   [k |-> "poly", d, V, fd]      conv(V); fd its exact face description                             *)
(* R is exactly orthogonal, all numbers exact.                                                        *)
EXTENDS Poly

MkBox(he, c, R) == [k |-> "box", he |-> he, c |-> c, R |-> R]
MkEll(he, c, R) == [k |-> "ell", he |-> he, c |-> c, R |-> R]
MkCyl(L, r, c, R) == [k |-> "cyl", L |-> L, r |-> r, c |-> c, R |-> R]
MkCap(L, r, c, R) == [k |-> "cap", L |-> L, r |-> r, c |-> c, R |-> R]
MkPoly(V, d) == [k |-> "poly", d |-> d, V |-> V, fd |-> FaceDesc(V, <<>>, d)]
IsShape(o) == o.k \in {"box", "ell", "cyl", "cap", "poly"}
DimOf(s) == IF s.k = "poly" THEN s.d ELSE IF s.k = "ell" THEN Len(s.he) ELSE 3

\* local coordinates of a point
LocalC(s, p) == MatVec(Transp(s.R), VSub(p, s.c))
ToWorld(s, y) == VAdd(MatVec(s.R, y), s.c)
Sq2(a, b) == RAdd(Sq(a), Sq(b))
CapHalf(s) == Half(s.L)
\* squared distance of the local point y to the axis segment of a capsule
SegDist2(s, y) == LET h == CapHalf(s)
                      z == RMax("0", RSub(RAbs(y[3]), h)) IN RSum(<<Sq(y[1]), Sq(y[2]), Sq(z)>>)
\* sum over the non-degenerate axes of (y_i/he_i)^2
EllGauge(he, y) == RSum([i \in DOMAIN he |-> IF he[i] = "0" THEN "0" ELSE Sq(RDiv(y[i], he[i]))])
EllFlat(he, y) == \A i \in DOMAIN he : he[i] = "0" => y[i] = "0"

\* ---- exact membership ----
Member(s, p) ==
  IF s.k = "poly" THEN InFaces(s.fd, p)
  ELSE LET y == LocalC(s, p) IN
    CASE s.k = "box" -> \A i \in 1..3 : RLe(RAbs(y[i]), s.he[i])
      [] s.k = "ell" -> EllFlat(s.he, y) /\ RLe(EllGauge(s.he, y), "1")
      [] s.k = "cyl" -> RLe(RAbs(y[3]), Half(s.L)) /\ RLe(Sq2(y[1], y[2]), Sq(s.r))
      [] s.k = "cap" -> RLe(SegDist2(s, y), Sq(s.r))

\* ---- violation measures ----
\* A sequence of <<dl, du, g>>, one per defining condition: the condition is violated by a distance between dl
\* and du and by g in normalised squared units; a satisfied condition has all of them <= 0 or zero.
Pos(a) == RMax("0", a)
EllViol(he, y) ==
  LET g == EllGauge(he, y)
      nz == [i \in DOMAIN y |-> IF he[i] = "0" THEN "0" ELSE y[i]]
      sg == RSqrt(g)
      amin == RMinSeq(SelectSeq(he, LAMBDA x : x # "0"))
      flat == [i \in DOMAIN y |-> IF he[i] = "0" THEN RAbs(y[i]) ELSE "0"]
      anynz == \E i \in DOMAIN he : he[i] # "0"
      zs == << <<RMaxSeq(flat), RSum(flat), "inf">> >>
  IN (IF anynz THEN << IF RLe(g, "1") THEN LET v == RMul(RSub(sg, "1"), amin) IN <<v, v, RSub(g, "1")>>
                       ELSE <<RMul(RSub(sg, "1"), amin), RMul(RSqrt(Norm2(nz)), RSub("1", RDiv("1", sg))), RSub(g, "1")>> >>
      ELSE <<>>)
     \o (IF \E i \in DOMAIN he : he[i] = "0" THEN zs ELSE <<>>)
Viol(s, p) ==
  IF s.k = "poly" THEN
     [i \in 1..(Len(s.fd.F) + Len(s.fd.N)) |->
        LET v == IF i <= Len(s.fd.F) THEN FaceViol(s.fd.F[i], p)
                 ELSE RAbs(FaceViol(s.fd.N[i - Len(s.fd.F)], p)) IN <<v, v, "inf">>]
  ELSE LET y == LocalC(s, p) IN
    CASE s.k = "box" -> [i \in 1..3 |-> LET v == RSub(RAbs(y[i]), s.he[i]) IN <<v, v, "inf">>]
      [] s.k = "ell" -> EllViol(s.he, y)
      [] s.k = "cyl" -> EllViol(<<s.r, s.r>>, <<y[1], y[2]>>) \o
                        (LET v == RSub(RAbs(y[3]), Half(s.L)) IN
                         << <<v, v, IF s.L = "0" THEN "inf" ELSE RSub(Sq(RDiv(y[3], Half(s.L))), "1")>> >>)
      [] s.k = "cap" -> LET d2 == SegDist2(s, y) v == RSub(RSqrt(d2), s.r) IN
                        << <<v, v, IF s.r = "0" THEN "inf" ELSE RSub(RDiv(d2, Sq(s.r)), "1")>> >>
GLe(a, b) == a = "inf" \/ RLe(a, b)      \* "inf": no normalised measure, ignored
\* size factor for shapes whose tolerance applies to faces of unspecified scaling
PolyFactor(s) == IF s.k = "poly" THEN "2" ELSE "1"
\* a query with tolerance t has to answer TRUE: the point is in the closed set, or outside by clearly less than t.
\* e: rounding allowance (a tolerance of zero decides nothing at the boundary itself)
MustAccept(s, p, t, e) ==
  LET V == Viol(s, p) f == PolyFactor(s)
      lim == RSub(RDiv(t, RMul("3", f)), e) IN
  /\ \A i \in DOMAIN V : GLe(V[i][3], lim)
  /\ \A i \in DOMAIN V : RLe(RMul(V[i][2], RMk(Len(V), 1)), lim)
\* it has to answer FALSE: some condition is violated by clearly more than t in every measure
MustReject(s, p, t, e) ==
  LET V == Viol(s, p) f == PolyFactor(s)
      lim == RAdd(RMul(RMul("3", f), t), e) IN
  \E i \in DOMAIN V : RLt(lim, V[i][1]) /\ (V[i][3] = "inf" \/ RLt(lim, V[i][3]))

\* scale of the coordinates involved: rounding of a membership computation is far below 1e-11 of it
RECURSIVE ShapeScale(_)
ShapeScale(s) ==
  IF s.k = "poly" THEN RMaxSeq([i \in DOMAIN s.V |-> VMaxAbs(s.V[i])])
  ELSE RAdd(VMaxAbs(s.c), CASE s.k \in {"box", "ell"} -> RMaxSeq(s.he) [] OTHER -> RAdd(s.r, s.L))

\* ---- vertices ----
Signs == << <<"1","1","1">>, <<"1","1","-1">>, <<"1","-1","1">>, <<"1","-1","-1">>,
            <<"-1","1","1">>, <<"-1","1","-1">>, <<"-1","-1","1">>, <<"-1","-1","-1">> >>
BoxVertices(s) == [i \in 1..8 |-> ToWorld(s, VMul(Signs[i], s.he))]
Endpoints(s) == << ToWorld(s, <<"0", "0", Half(s.L)>>), ToWorld(s, <<"0", "0", RNeg(Half(s.L))>>) >>
AsPoly(s) == IF s.k = "box" THEN MkPoly(BoxVertices(s), 3) ELSE s
VerticesOf(s) == IF s.k = "box" THEN BoxVertices(s) ELSE s.V

\* ---- rigid transforms: x |-> R x + t ----
Transform(s, R, t) ==
  IF s.k = "poly" THEN MkPoly([i \in DOMAIN s.V |-> VAdd(MatVec(R, s.V[i]), t)], s.d)
  ELSE [s EXCEPT !.R = MatMul(R, s.R), !.c = VAdd(MatVec(R, s.c), t)]
RotateAboutCenter(s, R) == [s EXCEPT !.R = MatMul(R, s.R)]

\* ---- support functions: h(n) = max {n . p : p in s}, rational up to 1e-40 roots ----
Support(s, n) ==
  IF s.k = "poly" THEN RMaxSeq([i \in DOMAIN s.V |-> RDot(n, s.V[i])])
  ELSE LET u == MatVec(Transp(s.R), n) b == RDot(n, s.c) IN
    CASE s.k = "box" -> RAdd(b, RSum([i \in 1..3 |-> RMul(RAbs(u[i]), s.he[i])]))
      [] s.k = "ell" -> RAdd(b, RSqrt(RSum([i \in DOMAIN u |-> Sq(RMul(u[i], s.he[i]))])))
      [] s.k = "cyl" -> RSum(<<b, RMul(RAbs(u[3]), Half(s.L)), RMul(s.r, RSqrt(Sq2(u[1], u[2])))>>)
      [] s.k = "cap" -> RSum(<<b, RMul(RAbs(u[3]), Half(s.L)), RMul(s.r, RSqrt(Norm2(u)))>>)
UnitV(i, d) == [j \in 1..d |-> IF i = j THEN "1" ELSE "0"]
AabbLo(s) == [i \in 1..DimOf(s) |-> RNeg(Support(s, VNeg(UnitV(i, DimOf(s)))))]
AabbHi(s) == [i \in 1..DimOf(s) |-> Support(s, UnitV(i, DimOf(s)))]

\* ---- boundary ----
\* signed clearance of a point of a box or ellipsoid from its boundary: the minimum over the conditions of the
\* distance by which the condition holds (for points inside)
OnSurfaceYes(s, p, t, e) ==   \* must answer TRUE: on the boundary up to rounding e << t
  /\ MustAccept(s, p, t, e)
  /\ LET y == LocalC(s, p) IN
     IF s.k = "box" THEN \E i \in 1..3 : RLe(RAbs(RSub(RAbs(y[i]), s.he[i])), RSub(RDiv(t, "3"), e))
     ELSE \/ \E i \in DOMAIN s.he : s.he[i] = "0"
          \/ LET g == RAbs(RSub(EllGauge(s.he, y), "1")) IN RLe(g, RSub(RDiv(t, "3"), e))
OnSurfaceNo(s, p, t, e) ==    \* must answer FALSE: clearly inside or clearly outside
  \/ MustReject(s, p, t, e)
  \/ LET y == LocalC(s, p) lim == RAdd(RMul("3", t), e) IN
     IF s.k = "box" THEN \A i \in 1..3 : RLt(lim, RSub(s.he[i], RAbs(y[i])))
     ELSE /\ \A i \in DOMAIN s.he : s.he[i] # "0"
          /\ RLt(RAdd(EllGauge(s.he, y), lim), "1")
          /\ RLt(lim, RMul(RSub("1", RSqrt(EllGauge(s.he, y))), RMinSeq(s.he)))

\* ---- equality of point sets ----
\* exact decision: boxes and ellipsoids by E = R diag(he^2) R^T and centre (boxes: as polyhedra), cylinders by
\* their axis, polyhedra by extreme points
InvShape(s) == MatMul(MatMul(s.R, Diag(VMul(s.he, s.he))), Transp(s.R))
AxisOf(s) == Col(s.R, 3)
SameSet(a, b) ==
  CASE a.k = "ell" /\ b.k = "ell" -> Len(a.he) = Len(b.he) /\ a.c = b.c /\ InvShape(a) = InvShape(b)
    [] a.k \in {"box", "poly"} /\ b.k \in {"box", "poly"} ->
         /\ DimOf(a) = DimOf(b)
         /\ LET A == AsPoly(a) B == AsPoly(b) IN
            (\A i \in DOMAIN A.V : InFaces(B.fd, A.V[i])) /\ (\A i \in DOMAIN B.V : InFaces(A.fd, B.V[i]))
    [] a.k = "cyl" /\ b.k = "cyl" ->
         a.L = b.L /\ a.r = b.r /\ a.c = b.c /\
         \/ a.L = "0" /\ a.r = "0"
         \/ AxisOf(a) = AxisOf(b) \/ AxisOf(a) = VNeg(AxisOf(b))
    [] a.k = "cap" /\ b.k = "cap" ->
         a.L = b.L /\ a.r = b.r /\ a.c = b.c /\ (a.L = "0" \/ AxisOf(a) = AxisOf(b) \/ AxisOf(a) = VNeg(AxisOf(b)))
    [] OTHER -> FALSE
\* the sets differ by more than t: some support value differs by more than t (directions: the axes of both, the
\* coordinate axes and diagonals)
ProbeDirs(a) == IF a.k = "poly" THEN [i \in 1..a.d |-> UnitV(i, a.d)]
                ELSE Transp(a.R)
DiffBy(a, b, t) ==
  \/ DimOf(a) # DimOf(b)
  \/ LET D1 == ProbeDirs(a) \o ProbeDirs(b) \o [i \in 1..DimOf(a) |-> UnitV(i, DimOf(a))]
         n == Len(D1)
         Ds == D1 \o (IF n >= 3 THEN [i \in 1..(n - 1) |-> VAdd(D1[i], D1[i + 1])] \o [i \in 1..(n - 1) |-> VSub(D1[i], D1[i + 1])] ELSE <<>>)
     IN \E i \in DOMAIN Ds :
          LET nn == RSqrt(Norm2(Ds[i])) IN
          \/ RLt(RMul(t, nn), RAbs(RSub(Support(a, Ds[i]), Support(b, Ds[i]))))
          \/ RLt(RMul(t, nn), RAbs(RSub(Support(a, VNeg(Ds[i])), Support(b, VNeg(Ds[i])))))
=============================================================================
