-------------------------------- MODULE MC_Real --------------------------------
(* Design model of realizability: mass distributions on the lattice points of a few shapes, grown one point at   *)
(* a time.  The invariants state that the exact bounds used to judge the library's constraints hold for every     *)
(* distribution, that the bounds are attained by one, and that the outer approximations by vertices and by the    *)
(* ellipsoid's trace contain every distribution but satisfy the same bounds.  States are emitted as scenarios.     *)
EXTENDS Real, Json
CONSTANTS K, MP, NS, Emit      \* lattice -K..K (halved), at most MP points, number of shapes used
VARIABLES sh, pm
Rz == << <<"0", "-1", "0">>, <<"1", "0", "0">>, <<"0", "0", "1">> >>
Rq == QuatRot(<<"1", "1", "1", "1">>)
Shapes == << MkBox(<<"1", "1/2", "1/2">>, <<"0", "1/2", "0">>, Rz),
             MkEll(<<"1", "1/2", "1">>, <<"0", "0", "1/2">>, Rq),
             MkCyl("1", "1", <<"1/2", "0", "0">>, Rq),
             MkPoly(<< <<"0", "0", "0">>, <<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "1/2", "1">> >>, 3),
             MkEll(<<"1", "0", "1">>, <<"0", "1/2", "0">>, Rz),
             MkEll(<<"0", "0", "1">>, <<"1/2", "0", "0">>, Rz),
             MkBox(<<"1/2", "1/2", "1/2">>, <<"1/2", "1/2", "1/2">>, Eye(3)) >>
S == Shapes[sh]
Lat == {<<RMk(i, 2), RMk(j, 2), RMk(k, 2)>> : i, j, k \in -K..K}
PtsOf(s) == SetToSeq({x \in Lat : Member(s, x)})
InPts == [s \in 1..NS |-> TLCEval(PtsOf(Shapes[s]))]
LastIx == IF pm = <<>> THEN 1 ELSE CHOOSE i \in DOMAIN InPts[sh] : InPts[sh][i] = pm[Len(pm)][2]
Init == sh \in 1..NS /\ pm = <<>>
Next == /\ Len(pm) < MP /\ sh' = sh
        /\ \E i \in DOMAIN InPts[sh], m \in {"1", "3"} : i >= LastIx /\ (m = "1" \/ Len(pm) = 0) /\ pm' = Append(pm, <<m, InPts[sh][i]>>)
Dirs == {<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "-1">>, <<"1", "-1", "0">>, <<"1", "2", "-1">>}
Abouts == {<<"0", "0", "0">>, <<"1", "-1/2", "2">>}
J == JOfPm(pm)
M == PmMass(pm)
Mean(C) == RSum([i \in 1..4 |-> RDot(C[i], J[i])])
Bounded == pm # <<>> =>
  /\ IsPSD(J)
  /\ \A a \in Dirs :
       /\ RLe(RDot(a, PmFirst(pm, 3)), RMul(M, SupU(<<S>>, a)))
       /\ \A p \in Abouts : LET v == Mean(SecC(a, p)) IN
            RLe(v, RMul(M, SecMax(<<S>>, a, p))) /\ RLe(RMul(M, SecMin(<<S>>, a, p)), v)
  /\ S.k # "poly" => \A w \in {<<"1", "0", "0">>, <<"0", "1", "2">>, <<"1", "1", "1">>} :
       (S.k # "cyl" \/ w[1] = w[2] \/ w[1] = "0" \/ w[2] = "0") =>
       RLe(Mean(QueryC(<<S>>, [q |-> "wq", w |-> w])), RMul(M, WMax(S, w)))
  /\ S.k \in {"box", "poly"} => \A a \in Dirs : RLe(Mean(CMat(Outer(a, a), <<"1", "-2", "0">>, "0")), RMul(M, QuadMax(VerticesOf(S), Outer(a, a), <<"1", "-2", "0">>)))
  /\ S.k = "ell" => LET L == Qd(S, ParOfPm(pm)) IN
       /\ RLe(RSum([i \in 1..3 |-> IF S.he[i] = "0" THEN "0" ELSE RDiv(L[i][i], Sq(S.he[i]))]), M)
       /\ \A i \in 1..3 : S.he[i] = "0" => L[i][i] = "0"
\* bounds are attained by single points, which are distributions
Attained == pm = <<>> => \A a \in Dirs :
  S.k \in {"box", "poly"} => \A p \in Abouts : \E i \in DOMAIN VerticesOf(S) :
     LET v == VerticesOf(S)[i] IN Sq(RSub(RDot(a, v), RDot(a, p))) = SecMax(<<S>>, a, p)
\* every distribution on a polytope is dominated by masses at the vertices with the same first moment, and what
\* the vertices dominate satisfies the bounds: here for segments of the box diagonal
VertexDominates == (pm # <<>> /\ S.k = "box") =>
  LET y == [k \in DOMAIN pm |-> LocalC(S, pm[k][2])]
      \* bilinear weights of a point on the eight vertices
      W(k, i) == RProd([j \in 1..3 |-> Half(RAdd("1", RMul(Signs[i][j], RDiv(y[k][j], S.he[j]))))])
      mu == [i \in 1..8 |-> RSum([k \in DOMAIN pm |-> RMul(pm[k][1], W(k, i))])]
      V == BoxVertices(S)
      vp == [i \in 1..8 |-> <<mu[i], V[i]>>]
      G == MSub(PmSecond(vp, 3), PmSecond(pm, 3))
      Gl == MatMul(MatMul(Transp(S.R), G), S.R) IN
  /\ \A i \in 1..8 : RLe("0", mu[i])
  /\ PmMass(vp) = M /\ PmFirst(vp, 3) = PmFirst(pm, 3)
  /\ \A i, j \in 1..3 : i # j => Gl[i][j] = "0"          \* the box family: same off-diagonals, larger diagonal
  /\ IsPSD(G)                                             \* the vertex family: larger in the semidefinite order
Emitted == (Emit /\ Len(pm) > 0) => PrintT("SCN " \o ToJson([shape |-> S, pm |-> pm]))
=============================================================================
