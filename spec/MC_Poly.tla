------------------------------ MODULE MC_Poly ------------------------------
(* Exhaustive check of the polyhedron operators on small integer point sets: facet membership agrees *)
(* with convex-combination membership, the two descriptions are inverse to each other, and extreme    *)
(* points are those that cannot be dropped.                                                          *)
EXTENDS Poly, Integers
CONSTANTS D, K, M      \* dimension, grid 0..K, at most M points
Grid == [1..D -> 0..K]
ToR(p) == [i \in 1..D |-> RInt(p[i])]
VARIABLES P, stage
Init == P = {} /\ stage = 0
Next == \E p \in Grid : p \notin P /\ Cardinality(P) < M /\ P' = P \cup {p} /\ stage' = stage
Spec == Init /\ [][Next]_<<P, stage>>
V == LET s == SetToSeq(P) IN [i \in DOMAIN s |-> ToR(s[i])]
\* Caratheodory: x is in conv(V) iff it is in a simplex spanned by affinely independent points of V, i.e.
\* the barycentric coordinates (Cramer) are all non-negative
SolveOK(T, x) ==   \* T: sequence of affinely independent points
  LET n == Len(T)
      A == [r \in 1..(D + 1) |-> [c \in 1..n |-> IF r = 1 THEN "1" ELSE T[c][r - 1]]]
      y == HomV(x)
      G == MatMul(Transp(A), A)
      z == MatVec(MInverse(G), MatVec(Transp(A), y))
  IN Det(G) # "0" /\ MatVec(A, z) = y /\ \A i \in 1..n : RLe("0", z[i])
Carath(x) == \E k \in 1..(D + 1) : \E S \in KSubs(k, DOMAIN V) :
               LET s == SetToSeq(S) T == [i \in DOMAIN s |-> V[s[i]]] IN SolveOK(T, x)
Tests == {[i \in 1..D |-> RMk(p[i], 2)] : p \in [1..D -> -1..(2 * K + 1)]}
HullAgrees == P # {} => \A x \in Tests : InHull(V, <<>>, D, x) <=> Carath(x)
RoundTrip == P # {} =>
  LET fd == FaceDesc(V, <<>>, D)
      tl(f) == SubSeq(f, 2, D + 1)
      A == [i \in 1..(Len(fd.F) + 2 * Len(fd.N)) |->
             IF i <= Len(fd.F) THEN VNeg(tl(fd.F[i]))
             ELSE LET j == i - Len(fd.F) IN
                  IF j <= Len(fd.N) THEN VNeg(tl(fd.N[j])) ELSE tl(fd.N[j - Len(fd.N)])]
      b == [i \in 1..(Len(fd.F) + 2 * Len(fd.N)) |->
             IF i <= Len(fd.F) THEN fd.F[i][1]
             ELSE LET j == i - Len(fd.F) IN
                  IF j <= Len(fd.N) THEN fd.N[j][1] ELSE RNeg(fd.N[j - Len(fd.N)][1])]
      g == GenDesc(A, b, D)
  IN /\ g.R = <<>> /\ g.L = <<>>
     /\ {g.V[i] : i \in DOMAIN g.V} = {V[i] : i \in ExtremePoints(V, D)}
     /\ Len(g.V) = Cardinality(ExtremePoints(V, D))
=============================================================================
