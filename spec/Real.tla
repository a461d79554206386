---------------------------------- MODULE Real ----------------------------------
(* Density realizability.  A mass distribution on a set S is a finite non-negative measure on it; the pseudo-  *)
(* inertia matrices of all of them form a closed convex cone.  The constraint families of the library describe  *)
(* outer approximations of this cone.  What they must do is stated by exact support values: a linear functional  *)
(* of J that is the mean of f(x) over the distribution is maximised, for unit mass, by max f over S whenever f     *)
(* is affine, or convex quadratic with its maximum at the extreme points of S.                                     *)
EXTENDS Mom

ShapesIn(hp, o) == IF o.k = "body" THEN [i \in DOMAIN o.shapes |-> o.shapes[i]] ELSE <<o>>
SupU(ss, a) == RMaxSeq([i \in DOMAIN ss |-> Support(ss[i], a)])
Hi(ss, a, p) == RSub(SupU(ss, a), RDot(a, p))
Lo(ss, a, p) == RNeg(RAdd(SupU(ss, VNeg(a)), RDot(a, p)))
SecMax(ss, a, p) == RMax(Sq(Hi(ss, a, p)), Sq(Lo(ss, a, p)))
SecMin1(ss, a, p) == IF RLe(Lo(ss, a, p), "0") /\ RLe("0", Hi(ss, a, p)) THEN "0" ELSE RMin(Sq(Hi(ss, a, p)), Sq(Lo(ss, a, p)))
\* the least value over a union is the least over its parts, which the hull may undercut
SecMin(ss, a, p) == RMinSeq([i \in DOMAIN ss |-> SecMin1(<<ss[i]>>, a, p)])
\* is the second moment along a bounded exactly by the family on the shape?  The moment relaxation of order two (or
\* more) is exact along the axes of boxes and cylinders and along facet normals with a parallel facet opposite.
NumNonZero(u) == Cardinality({i \in DOMAIN u : u[i] # "0"})
Parallel(f, a) == LET n == SubSeq(f, 2, Len(f)) IN RLt("0", RDot(n, a)) /\ Sq(RDot(n, a)) = RMul(Norm2(n), Norm2(a))
Tight(s, fam, a) ==
  IF s.k = "ell" \/ fam \in {"vertex", "custom", "ell"} THEN TRUE
  ELSE LET u == IF s.k = "poly" THEN a ELSE MatVec(Transp(s.R), a) IN
    CASE s.k = "box" -> NumNonZero(u) <= 1
      [] s.k = "cyl" -> u[3] = "0" \/ (u[1] = "0" /\ u[2] = "0")
      [] s.k = "poly" -> (\E i \in DOMAIN s.fd.F : Parallel(s.fd.F[i], a)) /\ (\E i \in DOMAIN s.fd.F : Parallel(s.fd.F[i], VNeg(a)))
TightAll(ss, fam, a) == \A i \in DOMAIN ss : Tight(ss[i], fam, a)
\* weighted second moments along the shape's own axes about its centre: sum of w_i (a_i . (x - c))^2
WMax(s, w) == CASE s.k = "box" -> RSum([i \in 1..3 |-> RMul(w[i], Sq(s.he[i]))])
                [] s.k = "ell" -> RMaxSeq([i \in 1..3 |-> RMul(w[i], Sq(s.he[i]))])
                [] s.k = "cyl" -> RAdd(RMul(RMax(w[1], w[2]), Sq(s.r)), RMul(w[3], Sq(Half(s.L))))
WMatrix(s, w) == MatMul(MatMul(s.R, Diag(w)), Transp(s.R))
\* a convex quadratic on a polytope
QuadAt(A, b, x) == RAdd(QForm(A, x), RDot(b, x))
QuadMax(V, A, b) == RMaxSeq([i \in DOMAIN V |-> QuadAt(A, b, V[i])])

\* the functional of J of a query: <C, J> = mean of the query's function over the unit-mass distribution
\*   C = [[A, b/2], [b'/2, k]]  for  f(x) = x'Ax + b.x + k
CMat(A, b, k) == Block(A, [i \in 1..3 |-> <<Half(b[i])>>], <<VScale("1/2", b)>>, << <<k>> >>)
SecC(a, p) == CMat(Outer(a, a), VScale(RNeg(RMul("2", RDot(a, p))), a), Sq(RDot(a, p)))
QueryC(ss, q) ==
  CASE q.q = "com" -> CMat(MZero(3, 3), q.a, RNeg(RDot(q.a, q.p)))
    [] q.q \in {"sec", "secmin"} -> SecC(q.a, q.p)
    [] q.q = "wq" -> LET s == ss[1] M == WMatrix(s, q.w) IN CMat(M, VScale("-2", MatVec(M, s.c)), QForm(M, s.c))
    [] q.q = "quad" -> CMat(q.A, q.b, "0")
    [] q.q = "eig" -> Outer(q.v, q.v)
FroNorm(C) == RSqrt(RSum([i \in DOMAIN C |-> Norm2(C[i])]))
JOfPm(pm) == PimOf(ParOfPm(pm))
PmIn(ss, pm) == \A i \in DOMAIN pm : pm[i][1] = "0" \/ (\E k \in DOMAIN ss : Member(ss[k], pm[i][2]))
\* solver accuracy: 1e-4 relative to the magnitudes involved
RealTol(x) == RMul(Eps4, RAdd("1", RAbs(x)))
SizeOf(ss) == RMaxSeq([i \in DOMAIN ss |-> ShapeScale(ss[i])])
SpanTol(ss, C) == RMul(Eps4, RAdd("1/10", RMul(RMul("4", RMax("1", Sq(SizeOf(ss)))), MMaxAbs(C))))

QueryClauses(ss, e, q, ob) ==
  LET eps == Arg(e, "eps", "0") fam == e.fam
      \* the value of the optimum, unless the solver gave up (not judged) or the constraints have no solution
      fail == ob.st = "fail"
      none == ob.st = "infeasible"
      t == SpanTol(ss, IF q.q \in {"com", "sec", "secmin", "wq", "quad", "eig"} THEN QueryC(ss, q) ELSE MZero(4, 4))
      Bounds(lo, up, ilo, iup) ==   \* lo <= value <= up, the lower one only if ilo, the upper only if iup
        IF fail THEN {}
        ELSE IF none THEN Must(RLt("0", eps), "the constraints exclude every distribution")
        ELSE IF ~RIsNum(ob.v) THEN {"unbounded optimum of " \o q.q}
        ELSE (IF iup THEN Must(RLe(ob.v, RAdd(up, t)), "bound exceeded: " \o q.q) ELSE {})
             \cup (IF ilo THEN Must(RLe(RSub(lo, t), ob.v), "bound not attained: " \o q.q) ELSE {})
      free == eps = "0"
  IN
  CASE q.q = "com" -> LET T == Hi(ss, q.a, q.p) IN Bounds(T, T, free, TRUE)
    [] q.q = "sec" -> LET T == SecMax(ss, q.a, q.p) IN Bounds(T, T, free, TightAll(ss, fam, q.a))
    [] q.q = "secmin" -> LET T == SecMin(ss, q.a, q.p) IN Bounds(T, T, TRUE, free)
    [] q.q = "wq" -> LET T == WMax(ss[1], q.w) IN Bounds(T, T, free, TRUE)
    [] q.q = "quad" -> LET T == QuadMax(VerticesOf(ss[1]), q.A, q.b) IN Bounds(T, T, free, fam \in {"vertex", "custom"})
    [] q.q = "eig" -> LET T == RMul(eps, Norm2(q.v)) IN Bounds(T, T, TRUE, FALSE)
    [] q.q = "asym" -> Bounds("0", "0", FALSE, TRUE)
    [] q.q = "zero" -> Bounds("0", "0", FALSE, TRUE)
    [] q.q = "dist" ->
         LET J == JOfPm(q.pm) s == MMaxAbs(J) m == PmMass(q.pm)
             inside == PmIn(ss, q.pm)
             accept == inside /\ (free \/ IsPSD(Shift(J, RNeg(RAdd(eps, RMul(Eps4, RAdd("1", s)))))))
             \* a functional that is at most T for unit mass separates J: <C, J> > T m
             Sep(C, T) == LET D == MSub(C, CMat(MZero(3, 3), VZero(3), T)) IN
                          RDiv(RSum([i \in 1..4 |-> RDot(D[i], J[i])]), RAdd(FroNorm(D), "1/1000000"))
             gap == RMaxSeq(<<"0", Sep(CMat(MZero(3, 3), q.a, "0"), SupU(ss, q.a))>>
                    \o (IF TightAll(ss, fam, q.a) THEN <<Sep(SecC(q.a, q.p), SecMax(ss, q.a, q.p))>> ELSE <<>>)) IN
         IF fail THEN {}
         ELSE IF accept THEN Must(ob.st = "ok" /\ RLe(ob.v, RealTol(s)), "parameters of a distribution inside are rejected")
         ELSE IF RLt(RMul("4", RealTol(s)), gap) THEN Must(none \/ RLt(RMul("1/2", gap), ob.v), "parameters outside the bounds are accepted")
         ELSE {}
    [] q.q = "feas" ->
         LET J == JOfPm(q.pm) m == PmMass(q.pm) p == RMul(RAdd("1/20", "0"), RMul(m, RSqrt(Norm2(q.a))))
             out == RLt(RAdd(RMul(m, SupU(ss, q.a)), p), RDot(q.a, PmFirst(q.pm, 3))) IN
         IF fail THEN {}
         ELSE IF q.interior /\ PmIn(ss, q.pm) /\ (free \/ IsPSD(Shift(J, RNeg(RMul("2", eps))))) THEN Must(ob.st = "ok", "the feasibility problem rejects a distribution inside")
         ELSE IF out THEN Must(none, "the feasibility problem accepts a centre of mass outside")
         ELSE {}

\* ---- the numeric test of the ellipsoid ----
\* mean squared normalised radius times mass, and the second moment off the flat's plane
Qd(s, J) == LET A == MatMul(Transp(s.R), MSub(MAdd(J.H, MScale(J.m, Outer(s.c, s.c))), MAdd(Outer(J.h, s.c), Outer(s.c, J.h)))) IN
            MatMul(A, s.R)          \* second moment about the centre in the axes of the ellipsoid
CanClauses(s, o, eps, ans) ==
  LET L == Qd(s, o)
      rad == RSum([i \in 1..3 |-> IF s.he[i] = "0" THEN "0" ELSE RDiv(L[i][i], Sq(s.he[i]))])
      off == RSum([i \in 1..3 |-> IF s.he[i] = "0" THEN RAbs(L[i][i]) ELSE "0"])
      \* rounding of the computed trace: the terms it is summed from
      inv == RSum([i \in 1..3 |-> IF s.he[i] = "0" THEN "1" ELSE RDiv("1", Sq(s.he[i]))])
      big == RMul(RAdd("1", inv), RAdd(PimScale(o), RMul(RAdd(o.sh, o.sm), RMul(RAdd("1", VMaxAbs(s.c)), RAdd("1", VMaxAbs(s.c))))))
      t == RAdd(RMul(Eps9, big), "1/1000000000000")
      yes == /\ ConsistentYes(o, eps) /\ RLe(RAdd(rad, t), o.m) /\ off = "0"
             /\ (\A i \in 1..3 : s.he[i] # "0") \/ RLe(big, "1000")       \* the off-plane moment is judged by an absolute tolerance
      no == ConsistentNo(o, eps) \/ RLt(RAdd(o.m, t), rad) \/ RLt(RAdd("1/1000000", t), off) IN
  IF ans.t # "bool" THEN {"answer is a truth value"}
  ELSE (IF yes THEN Must(ans.v, "realizable parameters rejected") ELSE {})
       \cup (IF no THEN Must(~ans.v, "unrealizable parameters accepted") ELSE {})

RealOps == {"real.query", "ell.can"}
RealStep(hp, e) ==
  CASE e.op = "real.query" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET ss == ShapesIn(hp, hp[e.of]) IN
         Res(hp, IF Len(e.o.r) # Len(e.qs) THEN {"one answer per query"} ELSE UNION {QueryClauses(ss, e, e.qs[k], e.o.r[k]) : k \in DOMAIN e.qs})
    [] e.op = "ell.can" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         Res(hp, CanClauses(hp[e.of], hp[e.par], Arg(e, "eps", "0"), e.o.ans))
=============================================================================
