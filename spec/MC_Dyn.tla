------------------------------- MODULE MC_Dyn -------------------------------
(* Design model of densities, wrenches and helper operators: the closed forms of Dyn.tla against their   *)
(* definitions (mixtures of finer pieces, growth of the region, explicit point masses).  A case is a      *)
(* state; the cases with Emit are emitted as scenarios.                                                   *)
EXTENDS Dyn, Json
CONSTANT Big
VARIABLE c
Len0 == IF Big THEN {"1/2", "1", "3", "0"} ELSE {"1/2", "2", "0"}
Hes == {<<a, b, d>> : a \in Len0, b \in Len0, d \in Len0}
Systems == { << <<"1", <<"1", "0", "0">> >>, <<"2", <<"0", "1", "-1">> >> >>,
             << <<"1", <<"1", "2", "3">> >>, <<"1", <<"-1", "0", "2">> >>, <<"3", <<"0", "0", "0">> >>, <<"1/2", <<"2", "-1", "1">> >> >> }
V3 == IF Big THEN {<<a, b, d>> : a \in {"-1", "0", "2"}, b \in {"0", "1"}, d \in {"0", "-1/2"}}
      ELSE {<<a, b, "1">> : a \in {"-1", "2"}, b \in {"0", "1"}} \cup {<<"0", "0", "0">>, <<"1", "0", "0">>, <<"0", "3", "0">>}
Init == c \in {[t |-> "box", he |-> h] : h \in Hes}
         \cup {[t |-> "motion", pm |-> s, w |-> w, v |-> v, al |-> al, a |-> a] :
                  s \in Systems, w \in V3, v \in V3, al \in {<<"1", "-1", "2">>, <<"0", "0", "1">>}, a \in {<<"0", "2", "-1">>}}
Next == UNCHANGED c

\* the exact derivative at 0 of a polynomial of degree at most 6
Deriv(f(_)) == LET h == "1/100" IN
  RDiv(RSum(<<f(RMul("3", h)), RMul("-9", f(RMul("2", h))), RMul("45", f(h)), RMul("-45", f(RNeg(h))), RMul("9", f(RMul("-2", h))), RNeg(f(RMul("-3", h)))>>), RMul("60", h))
Grow(he, e) == [i \in 1..3 |-> RAdd(he[i], e)]
Vol(he) == RMul("8", RProd(he))
Box0(he) == MkBox(he, VZero(3), Eye(3))
\* second moment of the box, not normalised
SolidH(he, i) == RMul(Vol(he), LocalH(Box0(he), "uniform")[i][i])
\* second moment of the midpoint grid with n points per dimension; the error is of order 1/n^2 exactly
Mid(n, k, a) == RMul(a, RSub(RDiv(RMk(2 * k - 1, 1), RMk(n, 1)), "1"))
GridH(p, n, i) == LET xs == [k \in 1..n |-> RAdd(p[2][i], Mid(n, k, p[3][i]))] IN RDiv(RDot(xs, xs), RMk(n, 1))
Extrapolated(p, i) == RDiv(RSub(RMul("4", GridH(p, 2, i)), GridH(p, 1, i)), "3")
IsB == c.t = "box"
PiecesExact == IsB => \A k \in 1..12 : \A i \in 1..3 : LET p == EdgesOf(c.he)[k] IN Extrapolated(p, i) = PieceH(p)[i][i]
\* the uniform box splits into its halves along every axis
Split == IsB => \A j \in 1..3 : LET hh == [i \in 1..3 |-> IF i = j THEN Half(c.he[i]) ELSE c.he[i]]
                                    off == [i \in 1..3 |-> IF i = j THEN Half(c.he[i]) ELSE "0"] IN
   ParAdd(DensityPar(MkBox(hh, off, Eye(3)), "uniform", "3/2"), DensityPar(MkBox(hh, VNeg(off), Eye(3)), "uniform", "3/2")).H
     = DensityPar(Box0(c.he), "uniform", "3").H
\* the surface is what a box gains when it grows by the same thickness everywhere
SurfaceIsGrowth == (IsB /\ DensityDefined(Box0(c.he), "hollow")) => \A i \in 1..3 :
   LET area == Deriv(LAMBDA e : Vol(Grow(c.he, e))) m == Deriv(LAMBDA e : SolidH(Grow(c.he, e), i)) IN
   m = RMul(area, LocalH(Box0(c.he), "hollow")[i][i])
BallGrowth == IsB => LET r == c.he[1] b(x) == MkEll(<<x, x, x>>, VZero(3), Eye(3)) IN
   Deriv(LAMBDA e : LET x == RAdd(r, e) IN RMul(RMul(x, Sq(x)), LocalH(b(x), "uniform")[1][1])) = RMul(RMul("3", Sq(r)), LocalH(b(r), "hollow")[1][1])
\* a cylinder grows sideways by a tube of radius r (second moment r^2/2 per axis) and L^2/12 along it
CylGrowth == IsB => LET r == c.he[1] L == c.he[2] cy(x) == MkCyl(L, x, VZero(3), Eye(3)) IN
   /\ Deriv(LAMBDA e : LET x == RAdd(r, e) IN RMul(Sq(x), LocalH(cy(x), "uniform")[1][1])) = RMul(RMul("2", r), Half(Sq(r)))
   /\ LocalH(cy(r), "uniform")[3][3] = LocalH(Box0(<<r, r, Half(L)>>), "uniform")[3][3]
\* densities are physically consistent and move with the shape
DensMoves == IsB => \A how \in {"uniform", "hollow", "wireframe"} : DensityDefined(Box0(c.he), how) =>
   LET R == QuatRot(<<"1", "2", "0", "-1">>) t == <<"1", "-2", "3">> d == DensityPar(Box0(c.he), how, "2") IN
   /\ IsPSD(PimOf(d)) /\ d.m = "2"
   /\ DensityPar(Transform(Box0(c.he), R, t), how, "2").H = ParTransform(d, R, t).H

V == <<c.w, c.v>>
A == <<c.al, c.a>>
o == ParOfPm(c.pm)
NewtonEuler == ~IsB => WrenchOf(o, V, A) = WrenchOfPm(c.pm, V, A)
Regressor == ~IsB => LET w == WrenchOf(o, V, A) th == VecOf(o) IN
   VSumSeq([k \in 1..10 |-> VScale(th[k], WrenchOf(UnitPar(k), V, A)[1] \o WrenchOf(UnitPar(k), V, A)[2])], 6) = w[1] \o w[2]
\* the power of the wrench is the rate of change of the kinetic energy
Power == ~IsB => LET w == WrenchOf(o, V, A) vel(p) == VAdd(c.v, Cross(c.w, p)) IN
   RAdd(RDot(w[1], c.w), RDot(w[2], c.v)) = RSum([i \in DOMAIN c.pm |-> RMul(c.pm[i][1], RDot(vel(c.pm[i][2]), PointAcc(V, A, c.pm[i][2])))])
Helpers == (~IsB /\ c.v = c.w) =>
   /\ \A n \in 1..5 : LET M == [i \in 1..n |-> [j \in 1..n |-> RMk((i + j) * (i + j) + i * j, 3)]] IN
        UnvechOf(VechOf(M, 0)) = M /\ Len(VechOf(M, 1)) = (n * (n - 1)) \div 2 /\ Cardinality(SignVecs(n)) = 2 ^ n
   /\ LET R == QuatRot(<<"1", "2", "0", "-1">>) IN MatMul(HomT(R, c.v), HomTInv(R, c.v)) = Eye(4)
   /\ InertiaOfSecond(SecondOfInertia(o.H)) = o.H
SE(x) == [op |-> "sv.new"] @@ x
Emitted == PrintT("SCN " \o ToJson(
   IF IsB THEN << [op |-> "shape.new", id |-> "s", how |-> "box", he |-> c.he] >>
   ELSE << [op |-> "par.pm", id |-> "p", pm |-> c.pm], [op |-> "sv.new", id |-> "v", ang |-> c.w, lin |-> c.v],
           [op |-> "sv.new", id |-> "a", ang |-> c.al, lin |-> c.a], [op |-> "wrench", of |-> "p", V |-> "v", A |-> "a"] >>))
=============================================================================
