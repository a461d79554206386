---------------------------- MODULE MC_Inertia ----------------------------
(* Design model of inertial parameters: a heap of objects, each carrying as ghost state the point     *)
(* masses it denotes.  Actions construct objects from small point-mass systems, convert between        *)
(* representations, transform and add.  Invariant: the state computed by the specification's operations *)
(* (Inertia.tla) is always the moments of the ghost mass distribution.  Every behaviour of length Depth  *)
(* is emitted as a scenario, which the harness replays against the implementation.                      *)
EXTENDS RigeoCore, Json
CONSTANTS Depth, MaxObj, Emit
VARIABLES hp, ghost, hist
vars == <<hp, ghost, hist>>

Systems == { << <<"1", <<"1", "0", "0">> >>, <<"2", <<"0", "1", "-1">> >> >>,
             << <<"1", <<"1", "2", "3">> >>, <<"1", <<"-1", "0", "2">> >>, <<"3", <<"0", "0", "0">> >>, <<"1/2", <<"2", "-1", "1">> >> >>,
             << <<"0", <<"1", "1", "1">> >> >> }
Quats == { <<"1", "1", "0", "0">>, <<"2", "0", "1", "0">>, <<"1", "1", "1", "1">> }
Shifts == { <<"1", "-2", "1/2">> }
Routes == {"vec", "pim", "hH", "cIc", "hHc", "cI"}

Name(i) == "o" \o ToString(i)
N == Cardinality(DOMAIN hp)
Init == hp = <<>> /\ ghost = <<>> /\ hist = <<>>
Step0(h, e) == ParStep(h, e @@ [exc |-> "", o |-> <<>>]).hp
Do(e, g) == /\ Len(hist) < Depth /\ N < MaxObj
            /\ LET r == Step0(hp, e) IN hp' = r
            /\ ghost' = (e.id :> g) @@ ghost /\ hist' = Append(hist, e)
New == \E s \in Systems : Do([op |-> "par.pm", id |-> Name(N + 1), pm |-> s], s)
Conv == \E x \in DOMAIN hp, r \in Routes : Do([op |-> "par.conv", id |-> Name(N + 1), of |-> x, route |-> r], ghost[x])
Move == \E x \in DOMAIN hp :
          \/ \E q \in Quats : Do([op |-> "par.transform", id |-> Name(N + 1), of |-> x, q |-> q], TransformPm(ghost[x], QuatRot(q), VZero(3)))
          \/ \E t \in Shifts : Do([op |-> "par.transform", id |-> Name(N + 1), of |-> x, t |-> t], TransformPm(ghost[x], Eye(3), t))
          \/ \E q \in Quats, t \in Shifts :
               Do([op |-> "par.transform", id |-> Name(N + 1), of |-> x, q |-> q, t |-> t], TransformPm(ghost[x], QuatRot(q), t))
Add == \E x, y \in DOMAIN hp : Do([op |-> "par.add", id |-> Name(N + 1), x |-> x, y |-> y], ghost[x] \o ghost[y])
Next == New \/ Conv \/ Move \/ Add

\* the state is the moments of the mass distribution
MomentsExact == \A x \in DOMAIN hp :
  /\ hp[x].m = PmMass(ghost[x]) /\ hp[x].h = PmFirst(ghost[x], 3) /\ hp[x].H = PmSecond(ghost[x], 3)
\* representations derived from the state agree with their definitions as integrals over the distribution
RepsExact == \A x \in DOMAIN hp :
  LET g == ghost[x] o == hp[x] c == Com(o) IN
  \* inertia matrix: INT (|p|^2 1 - p p^T) dm
  /\ InertiaOfSecond(o.H) = MSumSeq([i \in DOMAIN g |-> MScale(g[i][1], MSub(MScale(Norm2(g[i][2]), Eye(3)), Outer(g[i][2], g[i][2])))], 3, 3)
  /\ SecondAboutCom(o) = PmSecond([i \in DOMAIN g |-> <<g[i][1], VSub(g[i][2], c)>>], 3)
  \* pseudo-inertia matrix: INT (p,1)(p,1)^T dm
  /\ PimOf(o) = MSumSeq([i \in DOMAIN g |-> MScale(g[i][1], Outer(Append(g[i][2], "1"), Append(g[i][2], "1")))], 4, 4)
  /\ ParOfVec(VecOf(o)).H = o.H /\ ParOfPim(PimOf(o)).H = o.H
  /\ SecondOfInertia(InertiaOfSecond(o.H)) = o.H
  \* non-negative point masses are physically consistent
  /\ IsPSD(PimOf(o))
\* rigid motion preserves mass and principal moments about the centre of mass
Rigid == \A x \in DOMAIN hp : \A q \in Quats : \A t \in Shifts :
  LET o == hp[x] n == ParTransform(o, QuatRot(q), t) IN
  /\ CharCoef(SecondAboutCom(n)) = CharCoef(SecondAboutCom(o))
  /\ LET b == ParTransform(n, Transp(QuatRot(q)), VNeg(MatVec(Transp(QuatRot(q)), t))) IN b.h = o.h /\ b.H = o.H
Monoid == \A x, y \in DOMAIN hp :
  /\ ParAdd(hp[x], hp[y]).H = ParAdd(hp[y], hp[x]).H
  /\ ParAdd(hp[x], ParZero).H = hp[x].H /\ ParAdd(hp[x], ParZero).h = hp[x].h
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("SCN " \o ToJson(hist))
=============================================================================
