-------------------------------- MODULE Dyn --------------------------------
(* Densities on shapes, wrenches of moving bodies, spatial vectors, and the matrix helper operators.      *)
EXTENDS RigeoCore

\* ------------------------------------------------------------------ densities
\* A uniform distribution over a box with half extents he (any of them zero) has mean zero and second moment
\* diag(he^2)/3 about its centre; every other box-like distribution is a mixture of such pieces.
\* a piece: <<weight, centre, half extents>>
PieceH(p) == MAdd(Outer(p[2], p[2]), Diag([i \in 1..3 |-> RDiv(Sq(p[3][i]), "3")]))
MixtureH(P) ==     \* second moment per unit mass of a mixture of pieces (weights proportional)
  LET W == RSum([i \in DOMAIN P |-> P[i][1]]) IN
  MScale(RDiv("1", W), MSumSeq([i \in DOMAIN P |-> MScale(P[i][1], PieceH(P[i]))], 3, 3))
Others(i) == IF i = 1 THEN <<2, 3>> ELSE IF i = 2 THEN <<1, 3>> ELSE <<1, 2>>
\* the six faces, weighted by area; the twelve edges, weighted by length
FacesOf(he) == [k \in 1..6 |->
  LET i == (k + 1) \div 2 sg == IF k % 2 = 1 THEN "1" ELSE "-1" o == Others(i) IN
  <<RMul(he[o[1]], he[o[2]]), [j \in 1..3 |-> IF j = i THEN RMul(sg, he[i]) ELSE "0"], [j \in 1..3 |-> IF j = i THEN "0" ELSE he[j]]>>]
EdgesOf(he) == [k \in 1..12 |->
  LET i == (k + 3) \div 4 o == Others(i) s1 == IF k % 2 = 1 THEN "1" ELSE "-1" s2 == IF (k \div 2) % 2 = 1 THEN "1" ELSE "-1" IN
  <<he[i], [j \in 1..3 |-> IF j = i THEN "0" ELSE IF j = o[1] THEN RMul(s1, he[j]) ELSE RMul(s2, he[j])],
    [j \in 1..3 |-> IF j = i THEN he[i] ELSE "0"]>>]
LocalH(s, how) ==
  CASE s.k = "box" /\ how = "uniform" -> Diag([i \in 1..3 |-> RDiv(Sq(s.he[i]), "3")])
    [] s.k = "box" /\ how = "hollow" -> MixtureH(FacesOf(s.he))
    [] s.k = "box" /\ how = "wireframe" -> MixtureH(EdgesOf(s.he))
    [] s.k = "ell" /\ how = "uniform" -> Diag([i \in 1..3 |-> RDiv(Sq(s.he[i]), "5")])
    \* a sphere's surface: every direction carries a third of the squared radius
    [] s.k = "ell" /\ how = "hollow" -> Diag([i \in 1..3 |-> RDiv(Sq(s.he[i]), "3")])
    [] s.k = "cyl" /\ how = "uniform" -> Diag(<<RDiv(Sq(s.r), "4"), RDiv(Sq(s.r), "4"), RDiv(Sq(s.L), "12")>>)
DensityDefined(s, how) ==
  CASE how = "hollow" /\ s.k = "box" -> Cardinality({i \in 1..3 : s.he[i] = "0"}) <= 1
    [] how = "wireframe" -> \E i \in 1..3 : s.he[i] # "0"
    [] how = "hollow" /\ s.k = "ell" -> s.he[1] # "0" /\ s.he[1] = s.he[2] /\ s.he[2] = s.he[3]
    [] OTHER -> TRUE
DensityPar(s, how, m) == ParTransform(Par(m, VZero(3), MScale(m, LocalH(s, how))), s.R, s.c)
\* point masses at the vertices; ob: the vertices in the order the library lists them
VertexPar(V, masses) == ParOfPm([i \in DOMAIN V |-> <<masses[i], V[i]>>])
NearestOf(p, V) == CHOOSE i \in DOMAIN V : \A j \in DOMAIN V : RLe(Norm2(VSub(p, V[i])), Norm2(VSub(p, V[j])))

\* ------------------------------------------------------------------ motion
\* a spatial vector: <<angular, linear>>
SvAdd(a, b) == <<VAdd(a[1], b[1]), VAdd(a[2], b[2])>>
SvScale(k, a) == <<VScale(k, a[1]), VScale(k, a[2])>>
SvZero == <<VZero(3), VZero(3)>>
SvSize(a) == RMax(VMaxAbs(a[1]), VMaxAbs(a[2]))
\* Velocity V and acceleration A are resolved in the body frame: a point p fixed in the body moves with velocity
\* v + w x p and accelerates with  a + w x v + al x p + w x (w x p)
PointAcc(V, A, p) ==
  LET w == V[1] v == V[2] al == A[1] a == A[2] IN
  VAdd(VAdd(a, Cross(w, v)), VAdd(Cross(al, p), Cross(w, Cross(w, p))))
\* total force and moment needed by the distribution with moments (m, h, H): the acceleration is a0 + B p, so
\* INT a dm = m a0 + B h   and   INT p x a dm = h x a0 + (entries of INT p (B p)^T dm = H B^T)
AccB(V, A) == MAdd(Skew(A[1]), MatMul(Skew(V[1]), Skew(V[1])))
WrenchOf(o, V, A) ==
  LET a0 == PointAcc(V, A, VZero(3)) B == AccB(V, A)
      T == MatMul(o.H, Transp(B))
      n == <<RSub(T[2][3], T[3][2]), RSub(T[3][1], T[1][3]), RSub(T[1][2], T[2][1])>> IN
  <<VAdd(Cross(o.h, a0), n), VAdd(VScale(o.m, a0), MatVec(B, o.h))>>
\* the same for explicit point masses (used by the design model)
WrenchOfPm(pm, V, A) ==
  <<VSumSeq([i \in DOMAIN pm |-> VScale(pm[i][1], Cross(pm[i][2], PointAcc(V, A, pm[i][2])))], 3),
    VSumSeq([i \in DOMAIN pm |-> VScale(pm[i][1], PointAcc(V, A, pm[i][2]))], 3)>>
UnitPar(k) == ParOfVec([i \in 1..10 |-> IF i = k THEN "1" ELSE "0"])
\* magnitudes for rounding: accelerations are bounded by acc0 (of the origin) and accB (per unit length)
Acc0Scale(V, A) == RAdd(RMul("3", VMaxAbs(A[2])), RMul("6", RMul(VMaxAbs(V[1]), VMaxAbs(V[2]))))
AccBScale(V, A) == RAdd(RMul("3", VMaxAbs(A[1])), RMul("9", Sq(VMaxAbs(V[1]))))
WrenchClauses(o, V, A, ob) ==
  LET w == WrenchOf(o, V, A)
      s0 == Acc0Scale(V, A) sB == AccBScale(V, A)
      tf == Tol(RAdd(RMul(o.sm, s0), RMul(RMul("3", o.sh), sB)))
      tn == Tol(RMul("9", RSum(<<RMul(o.sh, s0), RMul(sHc(o), sB), RMul(o.sm, Sq(VMaxAbs(V[2])))>>)))
      th == RMax(tf, tn)
      reg(k) == WrenchOf(UnitPar(k), V, A)
      tr == Tol(RMul("9", RSum(<<s0, sB, Sq(VMaxAbs(V[2]))>>)))
  IN  Must(OVec(ob.angular, w[1], tn), "moment") \cup Must(OVec(ob.linear, w[2], tf), "force")
  \cup Must(ob.vec.t = "vec" /\ Len(ob.vec.v) = 6 /\
            VNearT(SubSeq(ob.vec.v, 1, 3), w[1], tn) /\ VNearT(SubSeq(ob.vec.v, 4, 6), w[2], tf), "angular part first")
  \cup Must(OIsMat(ob.Y, 6, 10) /\ \A k \in 1..10 :
            VNearT([i \in 1..6 |-> ob.Y.v[i][k]], reg(k)[1] \o reg(k)[2], tr), "regressor")
  \cup Must(ob.Yvec.t = "vec" /\ Len(ob.Yvec.v) = 6 /\
            VNearT(SubSeq(ob.Yvec.v, 1, 3), w[1], RMul("4", th)) /\ VNearT(SubSeq(ob.Yvec.v, 4, 6), w[2], RMul("4", th)), "regressor times parameters")

\* ------------------------------------------------------------------ helper operators
RECURSIVE VechFrom(_, _, _, _)
VechFrom(A, k, i, acc) ==
  IF i > Len(A) THEN acc
  ELSE VechFrom(A, k, i + 1, acc \o SelectSeq([j \in 1..Len(A) |-> IF j - i >= k THEN A[i][j] ELSE "skip"], LAMBDA x : x # "skip"))
VechOf(A, k) == VechFrom(A, k, 1, <<>>)
\* the n >= 1 with n (n + 1) / 2 = m, or 0
TriSizeR(m) == LET r == RFloor(RSqrt(RMul("2", m))) IN
  IF RLe("1", m) /\ RMul(RMk(r, 1), RMk(r + 1, 1)) = RMul("2", m) THEN r ELSE 0
TriSize(m) == TriSizeR(RMk(m, 1))
\* position of entry (i, j), i <= j, in the half-vectorisation of an n x n matrix
VechPos(n, i, j) == (i - 1) * n - ((i - 1) * (i - 2)) \div 2 + (j - i + 1)
UnvechOf(a) == LET n == TriSize(Len(a)) IN
  [i \in 1..n |-> [j \in 1..n |-> a[IF i <= j THEN VechPos(n, i, j) ELSE VechPos(n, j, i)]]]
HomT(R, t) == LET n == Len(R) IN
  [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |-> IF i <= n THEN (IF j <= n THEN R[i][j] ELSE t[i]) ELSE IF j = n + 1 THEN "1" ELSE "0"]]
HomTInv(R, t) == HomT(Transp(R), VNeg(MatVec(Transp(R), t)))
\* all sign combinations of a vector of half extents
RECURSIVE SignVecs(_)
SignVecs(n) == IF n = 0 THEN {<<>>} ELSE {<<s>> \o v : s \in {"1", "-1"}, v \in SignVecs(n - 1)}
\* number of steps of size st that start inside [0, dur)
NumSteps(dur, st) == LET q == RDiv(dur, st) f == RFloor(q) IN IF RInt(f) = q THEN f ELSE f + 1
RmseOf(Ys, ws, th) ==
  LET sq == [k \in DOMAIN Ys |-> Norm2(VSub(MatVec(Ys[k], th), ws[k]))] IN RSqrt(RDiv(RSum(sq), RMk(Len(Ys), 1)))
OIntegral(o) == o.t = "num" /\ RIsNum(o.v) /\ RInt(RFloor(o.v)) = o.v

UtilClauses(e) ==
  LET ob == e.o IN
  CASE e.f = "vech" -> LET x == VechOf(e.A, e.k) IN Must(OVec(ob.r, x, Tol(MMaxAbs(e.A))), "half-vectorisation")
    [] e.f = "vech_unvech" -> Must(OMat(ob.r, e.A, Tol(MMaxAbs(e.A))), "unvech(vech(A)) = A")
    [] e.f = "unvech" ->
         IF TriSize(Len(e.a)) = 0 THEN {}
         ELSE Must(OMat(ob.r, UnvechOf(e.a), Tol(VMaxAbs(e.a))), "unvech")
              \cup Must(OVec(ob.back, e.a, Tol(VMaxAbs(e.a))), "vech(unvech(a)) = a")
    [] e.f = "tri" -> LET n == TriSizeR(e.x) IN
         Must(OBool(ob.tri, n # 0), "triangular number") \cup (IF n # 0 THEN Must(ob.n.t = "num" /\ ob.n.v = RInt(n), "triangular root") ELSE {})
    [] e.f = "skew3" -> Must(OMat(ob.r, Skew(e.a), Tol(VMaxAbs(e.a))), "skew matrix")
         \cup Must(OVec(ob.cross, Cross(e.a, e.b), Tol(RMul("6", RMul(VMaxAbs(e.a), VMaxAbs(e.b))))), "skew(a) b = a x b")
    [] e.f = "lift3" -> Must(OVec(ob.r, MatVec(e.A, e.a), Tol(RMul("9", RMul(VMaxAbs(e.a), MMaxAbs(e.A))))), "lift3(x) vech(A) = A x")
         \cup Must(OIsMat(ob.L, 3, 6) /\ \A k \in 1..6 :
               VNearT([i \in 1..3 |-> ob.L.v[i][k]], MatVec(UnvechOf([j \in 1..6 |-> IF j = k THEN "1" ELSE "0"]), e.a), Tol(VMaxAbs(e.a))), "lift3 columns")
    [] e.f = "lift6" ->
         LET col(k) == MatVec(SpatialOf(UnitPar(k)), e.ang \o e.lin) IN
         Must(OIsMat(ob.L, 6, 10) /\ \A k \in 1..10 :
               VNearT([i \in 1..6 |-> ob.L.v[i][k]], col(k), Tol(RMul("6", RMax(VMaxAbs(e.ang), VMaxAbs(e.lin))))), "lift6(V) theta = M V")
    [] e.f = "H2I" -> LET s == RMul("3", MMaxAbs(e.A)) IN
         Must(OMat(ob.I, InertiaOfSecond(e.A), Tol(s)), "H2I") \cup Must(OMat(ob.H, SecondOfInertia(e.A), Tol(s)), "I2H")
         \cup Must(OMat(ob.IH, e.A, Tol(RMul("3", s))), "I2H(H2I(A)) = A") \cup Must(OMat(ob.HI, e.A, Tol(RMul("3", s))), "H2I(I2H(A)) = A")
    [] e.f = "tmat" ->
         LET R == RotArg(e, e.d) t == VecArg(e, "t", e.d) s == RAdd("1", RMul("9", VMaxAbs(t))) IN
         Must(OMat(ob.T, HomT(R, t), Tol(s)), "transform matrix") \cup Must(OMat(ob.Ti, HomTInv(R, t), Tol(s)), "inverse transform matrix")
         \cup Must(OMat(ob.TTi, Eye(e.d + 1), Tol(RMul("9", s))), "T T^-1 = 1")
         \cup Must(OVec(ob.Tp, Append(VAdd(MatVec(R, e.p), t), "1"), Tol(RMul("9", RMax(s, VMaxAbs(e.p))))), "rotate then translate")
    [] e.f = "clean" ->
         LET R == RotArg(e, e.d) t == VecArg(e, "t", e.d) IN
         Must(OMat(ob.R, R, Eps9), "rotation argument") \cup Must(OVec(ob.tr, t, Tol(RMax("1", VMaxAbs(t)))), "translation argument")
    [] e.f = "box_vertices" ->
         LET n == Len(e.he) t == Tol(VMaxAbs(e.he)) IN
         Must(OIsMat(ob.r, 2 ^ n, n) /\ \A s \in SignVecs(n) :
                Cardinality({i \in 1..(2 ^ n) : VNearT(ob.r.v[i], VMul(s, e.he), t)}) = Cardinality({u \in SignVecs(n) : VMul(u, e.he) = VMul(s, e.he)}),
              "every sign combination once")
    [] e.f = "contact" ->
         Must(OVec(ob.w, Cross(e.a, e.b) \o e.b, Tol(RMax(VMaxAbs(e.b), RMul("6", RMul(VMaxAbs(e.a), VMaxAbs(e.b)))))), "contact force to wrench")
         \cup Must(OIsMat(ob.J, 6, 3), "contact Jacobian")
    [] e.f = "schur" ->
         LET B == IF e.bshape = "vec" THEN [i \in DOMAIN e.B |-> <<e.B[i]>>] ELSE e.B IN
         Must(OMat(ob.r, Block(e.A, B, Transp(B), e.C), Tol(RMax("1", RMax(MMaxAbs(e.A), RMax(MMaxAbs(B), MMaxAbs(e.C)))))), "Schur block matrix")
    [] e.f = "pimvec" ->
         LET s == RMul("3", VMaxAbs(e.v)) IN
         Must(OMat(ob.r, PimOf(ParOfVec(e.v)), Tol(s)), "pseudo-inertia of a parameter vector")
         \cup Must(OMat(ob.sum, PimOf(ParOfVec(e.v)), Tol(s)), "sum of the basis matrices")
         \cup Must(OMat(ob.expr, PimOf(ParOfVec(e.v)), Tol(s)), "pseudo-inertia expression")
    [] e.f = "times" ->
         LET n == NumSteps(e.dur, e.st) IN
         Must(ob.n.t = "num" /\ ob.n.v = RInt(n), "number of times")
         \cup Must(ob.times.t = "vec" /\ Len(ob.times.v) = n /\ \A i \in 1..n : NearT(ob.times.v[i], RMul(e.st, RMk(i - 1, 1)), Tol(e.dur)), "times")
    [] e.f = "rmse" ->
         LET r == RmseOf(e.Ys, e.ws, e.th)
             s == RAdd(RMul("10", RMul(VMaxAbs(e.th), RMaxSeq([i \in DOMAIN e.Ys |-> MMaxAbs(e.Ys[i])]))), MMaxAbs(e.ws)) IN
         Must(ONum(ob.r, r, Tol(RMul("6", s))), "root mean square error")
UtilRefused(e) == \/ e.f = "unvech" /\ TriSize(Len(e.a)) = 0
                  \/ e.f = "vech" /\ Len(e.A) # Len(e.A[1])

SvClauses(a, ob) ==
  LET t == Tol(SvSize(a)) IN
     Must(OVec(ob.angular, a[1], t), "angular") \cup Must(OVec(ob.linear, a[2], t), "linear")
  \cup Must(OVec(ob.vec, a[1] \o a[2], t), "vector, angular part first")
  \* the motion cross product: adjoint(a) b = (w x b_ang, w x b_lin + v x b_ang)
  \cup Must(OMat(ob.adjoint, Block(Skew(a[1]), MZero(3, 3), Skew(a[2]), Skew(a[1])), t), "adjoint")

DynOps == {"dens", "dens.vertex", "wrench", "wrench.sum", "util", "sv.new", "sv.vec", "sv.zero", "sv.add", "sv.sub", "sv.mul", "sv.div", "sv.read"}
\* spatial vectors live in the heap as [k |-> "sv", v |-> <<angular, linear>>]
MkSv(v) == [k |-> "sv", v |-> v]
DynStep(hp, e) ==
  CASE e.op = "dens" ->
         LET s == hp[e.of] IN
         IF RLt(e.m, "0") THEN Refused(e, hp)
         ELSE NoExc(e, Res(Put(hp, e.id, DensityPar(s, e.how, e.m)), {}))
    [] e.op = "dens.vertex" ->
         LET V == VerticesOf(hp[e.of]) ob == e.o IN
         IF e.exc # "" THEN NoExc(e, Res(Put(hp, e.id, ParZero), {}))
         ELSE IF ~(OIsPts(ob.vertices, 3) /\ Len(ob.vertices.v) = Len(V)) THEN Res(Put(hp, e.id, ParZero), {"vertices"})
         ELSE LET order == [i \in DOMAIN V |-> NearestOf(ob.vertices.v[i], V)]
                  ms == IF "m" \in DOMAIN e THEN [i \in DOMAIN V |-> RDiv(e.m, RMk(Len(V), 1))] ELSE e.ms IN
              Res(Put(hp, e.id, VertexPar([i \in DOMAIN V |-> V[order[i]]], ms)),
                  Must(\A i \in DOMAIN V : VNearT(ob.vertices.v[i], V[order[i]], RMul("4", Tol(ShapeScale(hp[e.of])))), "vertices")
                  \cup Must({V[order[i]] : i \in DOMAIN V} = {V[i] : i \in DOMAIN V}, "every vertex"))
    [] e.op = "wrench" -> ReadOnly(e, hp, WrenchClauses(hp[e.of], hp[e.V].v, hp[e.A].v, e.o))
    [] e.op = "util" -> IF UtilRefused(e) THEN Refused(e, hp) ELSE NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, UtilClauses(e)))
    [] e.op = "sv.new" -> NoExc(e, Res(Put(hp, e.id, MkSv(<<VecArg(e, "ang", 3), VecArg(e, "lin", 3)>>)), {}))
    [] e.op = "sv.vec" -> NoExc(e, Res(Put(hp, e.id, MkSv(<<SubSeq(e.v, 1, 3), SubSeq(e.v, 4, 6)>>)), {}))
    [] e.op = "sv.zero" -> NoExc(e, Res(Put(hp, e.id, MkSv(SvZero)), {}))
    [] e.op = "sv.add" -> NoExc(e, Res(Put(hp, e.id, MkSv(SvAdd(hp[e.x].v, hp[e.y].v))), {}))
    [] e.op = "sv.sub" -> NoExc(e, Res(Put(hp, e.id, MkSv(SvAdd(hp[e.x].v, SvScale("-1", hp[e.y].v)))), {}))
    [] e.op = "sv.mul" -> NoExc(e, Res(Put(hp, e.id, MkSv(SvScale(e.a, hp[e.x].v))), {}))
    [] e.op = "sv.div" -> NoExc(e, Res(Put(hp, e.id, MkSv(SvScale(RDiv("1", e.a), hp[e.x].v))), {}))
    [] e.op = "sv.read" -> ReadOnly(e, hp, SvClauses(hp[e.of].v, e.o))
=============================================================================
