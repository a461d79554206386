----------------------------- MODULE Inertia -----------------------------
(* Inertial parameters.  The abstract state of an InertialParameters object is the mass, first and  *)
(* second moment of a mass distribution, all about the origin of its frame:                         *)
(*     m = INT dm     h = INT p dm     H = INT p p^T dm                                              *)
(* together with rounding scales (sm, sh, sH): bounds on the magnitude of the quantities an          *)
(* implementation has to add up to obtain them, used only for comparison tolerances.                *)
EXTENDS Obs

\* ---- mass distributions: finite sets of point masses, a sequence of <<mass, position>> ----
PmMass(pm) == RSum([i \in DOMAIN pm |-> pm[i][1]])
PmFirst(pm, d) == VSumSeq([i \in DOMAIN pm |-> VScale(pm[i][1], pm[i][2])], d)
PmSecond(pm, d) == MSumSeq([i \in DOMAIN pm |-> MScale(pm[i][1], Outer(pm[i][2], pm[i][2]))], d, d)

\* ---- construction from moments; a is a length bounding the offsets involved ----
MkPar(m, h, H, sm, sh, sH) == [k |-> "par", m |-> m, h |-> h, H |-> H, sm |-> sm, sh |-> sh, sH |-> sH]
Par(m, h, H) == MkPar(m, h, H, RAbs(m), VMaxAbs(h), MMaxAbs(H))
ParZero == Par("0", VZero(3), MZero(3, 3))
ParOfPm(pm) == LET m == PmMass(pm) H == PmSecond(pm, 3) IN
  MkPar(m, PmFirst(pm, 3), H, m, RSum([i \in DOMAIN pm |-> RMul(pm[i][1], VMaxAbs(pm[i][2]))]), MMaxAbs(H))

\* conversions between second moment and inertia matrices (each computed from its definition)
InertiaOfSecond(H) == MSub(MScale(Trace(H), Eye(Len(H))), H)
SecondOfInertia(I) == MSub(MScale(Half(Trace(I)), Eye(3)), I)
\* The argument combinations of the constructor.  a: [m, h|c (optional), H|I (optional), tfc]
CtorFirst(a) == IF "h" \in DOMAIN a THEN a.h ELSE IF "c" \in DOMAIN a THEN VScale(a.m, a.c) ELSE VZero(3)
MOuterOverM(h, m) == IF m = "0" THEN MZero(3, 3) ELSE MScale(RDiv("1", m), Outer(h, h))
CtorSecond(a) ==
  LET h == CtorFirst(a)
      hh == MOuterOverM(h, a.m)
      given == IF "H" \in DOMAIN a THEN a.H ELSE IF "I" \in DOMAIN a THEN SecondOfInertia(a.I) ELSE
               IF a.tfc THEN MZero(3, 3) ELSE hh
  IN IF a.tfc THEN MAdd(given, hh) ELSE given
CtorRefused(a) == ("h" \in DOMAIN a /\ "c" \in DOMAIN a) \/ ("H" \in DOMAIN a /\ "I" \in DOMAIN a) \/ RLt(a.m, "0")
ParCtor(a) == Par(a.m, CtorFirst(a), CtorSecond(a))
\* parameter vector [m, hx, hy, hz, Ixx, Ixy, Ixz, Iyy, Iyz, Izz]
InertiaOfVec(v) == << <<v[5], v[6], v[7]>>, <<v[6], v[8], v[9]>>, <<v[7], v[9], v[10]>> >>
ParOfVec(v) == Par(v[1], <<v[2], v[3], v[4]>>, SecondOfInertia(InertiaOfVec(v)))
ParOfPim(J) == Par(J[4][4], <<J[1][4], J[2][4], J[3][4]>>,
                   [i \in 1..3 |-> [j \in 1..3 |-> J[i][j]]])

\* ---- representations derived from the state ----
Com(o) == IF o.m = "0" THEN VZero(3) ELSE VScale(RDiv("1", o.m), o.h)
SecondAboutCom(o) == MSub(o.H, MOuterOverM(o.h, o.m))
VechI(I) == <<I[1][1], I[1][2], I[1][3], I[2][2], I[2][3], I[3][3]>>
VecOf(o) == <<o.m, o.h[1], o.h[2], o.h[3]>> \o VechI(InertiaOfSecond(o.H))
PimOf(o) == Block(o.H, [i \in 1..3 |-> <<o.h[i]>>], <<o.h>>, << <<o.m>> >>)
SpatialOf(o) == Block(InertiaOfSecond(o.H), Skew(o.h), MScale("-1", Skew(o.h)), Diag(<<o.m, o.m, o.m>>))

\* ---- operations ----
\* every mass element moves from p to R p + t
TransformPm(pm, R, t) == [i \in DOMAIN pm |-> <<pm[i][1], VAdd(MatVec(R, pm[i][2]), t)>>]
ParTransform(o, R, t) ==
  LET Rh == MatVec(R, o.h)
      h2 == VAdd(Rh, VScale(o.m, t))
      H2 == MAdd(MAdd(MatMul(MatMul(R, o.H), Transp(R)), MAdd(Outer(Rh, t), Outer(t, Rh))),
                 MScale(o.m, Outer(t, t)))
      T == VMaxAbs(t)
  IN MkPar(o.m, h2, H2, o.sm, RAdd(RMul("3", o.sh), RMul(o.sm, T)),
           RSum(<<RMul("9", o.sH), RMul("6", RMul(o.sh, T)), RMul(o.sm, Sq(T))>>))
ParAdd(a, b) == MkPar(RAdd(a.m, b.m), VAdd(a.h, b.h), MAdd(a.H, b.H),
                      RAdd(a.sm, b.sm), RAdd(a.sh, b.sh), RAdd(a.sH, b.sH))
RECURSIVE ParSum(_)
ParSum(s) == IF s = <<>> THEN ParZero ELSE ParAdd(Head(s), ParSum(Tail(s)))

\* ---- physical consistency ----
\* smallest eigenvalue of the pseudo-inertia matrix >= eps, away from the boundary by a margin
PimScale(o) == RMax(o.sm, RMax(o.sh, o.sH))
ConsistentYes(o, eps) == IsPSD(Shift(PimOf(o), RNeg(RAdd(eps, RMul(Eps9, PimScale(o))))))
ConsistentNo(o, eps)  == ~IsPSD(Shift(PimOf(o), RSub(RMul(Eps9, PimScale(o)), eps)))

\* ---- comparison with observations ----
\* scale of H-like quantities obtained through the centre of mass (m c c^T)
sHc(o) == IF o.m = "0" THEN o.sH ELSE RAdd(o.sH, RDiv(Sq(o.sh), o.m))
SameMoments(o, ob) ==   \* ob: [mass, h, H] observed
  ONum(ob.mass, o.m, Tol(o.sm)) /\ OVec(ob.h, o.h, Tol(o.sh)) /\ OMat(ob.H, o.H, Tol(sHc(o)))
ReadClauses(o, ob) ==
  LET sI == RMul("3", sHc(o))
      sA == RMax(sI, RMax(o.sh, o.sm))
      Hc == SecondAboutCom(o) I == InertiaOfSecond(o.H) Ic == InertiaOfSecond(Hc) IN
     Must(ONum(ob.mass, o.m, Tol(o.sm)), "mass")
  \cup Must(OVec(ob.h, o.h, Tol(o.sh)), "h")
  \cup Must(IF o.m = "0" THEN OIsVec(ob.com, 3)     \* arbitrary but defined
               ELSE OVec(ob.com, Com(o), Tol(RDiv(o.sh, o.m))), "com")
  \cup Must(OMat(ob.H, o.H, Tol(sHc(o))), "H")
  \cup Must(OMat(ob.Hc, Hc, Tol(sI)), "Hc")
  \cup Must(OMat(ob.I, I, Tol(sI)), "I")
  \cup Must(OMat(ob.Ic, Ic, Tol(RMul("3", sI))), "Ic")
  \cup Must(OMat(ob.J, PimOf(o), Tol(sA)), "J")
  \cup Must(OMat(ob.M, SpatialOf(o), Tol(sA)), "M")
  \cup Must(OVec(ob.vec, VecOf(o), Tol(sA)), "vec")
\* the same distribution up to scale a in length: tighter per-quantity comparison of J blocks
  \cup Must(ob.J.t = "mat" /\ ob.J.sh = <<4, 4>> /\ MIsNum(ob.J.v) /\
            NearT(ob.J.v[4][4], o.m, Tol(o.sm)) /\
            (\A i \in 1..3 : NearT(ob.J.v[i][4], o.h[i], Tol(o.sh)) /\ NearT(ob.J.v[4][i], o.h[i], Tol(o.sh))), "J-blocks")
  \cup Must(ob.vec.t = "vec" /\ Len(ob.vec.v) = 10 /\ NearT(ob.vec.v[1], o.m, Tol(o.sm)) /\
            (\A i \in 1..3 : NearT(ob.vec.v[i + 1], o.h[i], Tol(o.sh))), "vec-blocks")

\* an object whose state is taken from the observation (random generation)
ParFromObs(ob) == Par(ob.mass.v, ob.h.v, ob.H.v)
ObsIsPar(ob) == OIsNum(ob.mass) /\ OIsVec(ob.h, 3) /\ OIsMat(ob.H, 3, 3)

\* principal moments about the centre of mass are unchanged by rigid motion: compare the coefficients of the
\* characteristic polynomial of the (exact) second moment about the centre of mass
CharCoef(M) == <<Trace(M),
   RSum(<< Det(<< <<M[1][1], M[1][2]>>, <<M[2][1], M[2][2]>> >>), Det(<< <<M[1][1], M[1][3]>>, <<M[3][1], M[3][3]>> >>),
           Det(<< <<M[2][2], M[2][3]>>, <<M[3][2], M[3][3]>> >>) >>), Det(M)>>

\* whether two parameter sets have the same moments: yes / no / too close to call (numpy allclose tolerances
\* are 1e-8 + 1e-5 relative)
ParDiff(a, b) == RMax(RAbs(RSub(a.m, b.m)), RMax(VMaxAbs(VSub(a.h, b.h)), MMaxAbs(MSub(a.H, b.H))))
ParSameYes(a, b) == RLe(ParDiff(a, b), RMul(Eps9, RMin("1", RMax(PimScale(a), PimScale(b)))))
=============================================================================
