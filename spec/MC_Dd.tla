-------------------------------- MODULE MC_Dd --------------------------------
(* Design model of the double description: all sets spanned by few points and rays of a small lattice   *)
(* (bounded, unbounded, cones, flat ones) and all pairs of them.  The invariants compare the specified    *)
(* operators with the definition by convex combinations on a refined lattice.  Every state is emitted as  *)
(* a scenario for the library.                                                                           *)
EXTENDS Dd, Json
CONSTANTS K, MP, MR, MQ, Emit      \* grid 0..K; at most MP points and MR rays in the first set, MQ points in the second
VARIABLES P, R, Q
Grid == (0..K) \X (0..K)
Dirs == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<1, 1>>, <<-1, -1>>, <<2, -1>>}
Pt(p) == <<RInt(p[1]), RInt(p[2])>>
LatSeq(S) == LET s == SetToSeq(S) IN [i \in DOMAIN s |-> Pt(s[i])]
Below(p, S) == \A q \in S : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])
Init == P = {} /\ R = {} /\ Q = {}
AddP == R = {} /\ Q = {} /\ Cardinality(P) < MP /\ \E p \in Grid : Below(p, P) /\ P' = P \cup {p} /\ UNCHANGED <<R, Q>>
AddR == Q = {} /\ Cardinality(R) < MR /\ \E r \in Dirs : Below(r, R) /\ R' = R \cup {r} /\ UNCHANGED <<P, Q>>
AddQ == P # {} /\ R = {} /\ Cardinality(Q) < MQ /\ \E p \in Grid : Below(p, Q) /\ Q' = Q \cup {p} /\ UNCHANGED <<P, R>>
Next == AddP \/ AddR \/ AddQ
Some == P # {} \/ R # {}
A == SetOfSpan(LatSeq(P), LatSeq(R), 2, "span")
B == SetOfSpan(LatSeq(Q), <<>>, 2, "span")
Tests == {<<RMk(a, 2), RMk(b, 2)>> : a \in -2..(2 * K + 2), b \in -2..(2 * K + 2)}
Inner == {<<RMk(a, 2), RMk(b, 2)>> : a \in 0..(2 * K), b \in 0..(2 * K)}
\* x is spanned by some affinely independent generators (Caratheodory), rays homogenised with 0
GenSeq == Gens(SpanPts(LatSeq(P), LatSeq(R), 2), LatSeq(R))
Comb(T, y) == LET M == Transp(T) G == MatMul(T, M) IN
   /\ Det(G) # "0"
   /\ LET z == MatVec(MInverse(G), MatVec(T, y)) IN MatVec(M, z) = y /\ \A i \in DOMAIN z : RLe("0", z[i])
Carath(x) == \E k \in 1..3 : \E S \in KSubs(k, DOMAIN GenSeq) :
               LET s == SetToSeq(S) IN Comb([i \in DOMAIN s |-> GenSeq[s[i]]], HomV(x))
SpanAgrees == (Some /\ Q = {}) => LET a == A IN \A x \in Tests : Member2(a, x) <=> Carath(x)
\* both descriptions denote the same set, and no generator can be dropped
RoundTrip == (Some /\ Q = {}) =>
  LET a == A IN
  /\ SameSetP(SetOfRows(RowsOfFd(a.fd), 2, "face"), a)
  /\ SameSetP(SetOfSpan(a.V, AllRays(a), 2, "span"), a)
  /\ \A i \in DOMAIN a.V : Len(a.V) > 1 => ~SameSetP(SetOfSpan(SelectSeq(a.V, LAMBDA v : v # a.V[i]), AllRays(a), 2, "span"), a)
  /\ \A i \in DOMAIN a.R : ~SameSetP(SetOfSpan(a.V, SelectSeq(AllRays(a), LAMBDA v : v # a.R[i]), 2, "span"), a)
  /\ PBounded(a) = (R = {})
  /\ PCone(a) = (\A x \in Tests : Member2(a, x) => Member2(a, VScale("2", x)) /\ Member2(a, VScale("1/2", x)) /\ Member2(a, VScale("100", x)) /\ Member2(a, VScale("1/100", x)))
MeetExact == Q # {} =>
  LET a == A b == B m == PMeet(a, b) n == PMeet(b, a) IN
  /\ \A x \in Inner : Member2(m, x) <=> Member2(a, x) /\ Member2(b, x)
  /\ SameSetP(m, n) /\ SameSetP(PMeet(m, a), m) /\ SameSetP(PMeet(a, a), a)
  /\ \A i \in DOMAIN m.V : InFaces(a.fd, m.V[i]) /\ InFaces(b.fd, m.V[i])
MoveExact == (Some /\ Cardinality(P) + Cardinality(Q) <= 3) =>
  LET a == A rot == << <<"3/5", "-4/5">>, <<"4/5", "3/5">> >> t == <<"1", "-1/2">> IN
  /\ \A x \in Tests : Member2(a, x) = Member2(PMove(a, rot, t), VAdd(MatVec(rot, x), t))
  /\ (Q # {} => SameSetP(PMeet(PMove(a, rot, t), PMove(B, rot, t)), PMove(PMeet(a, B), rot, t)))
Emitted == (Emit /\ Some) => PrintT("SCN " \o ToJson([P |-> LatSeq(P), R |-> LatSeq(R), Q |-> LatSeq(Q)]))
=============================================================================
