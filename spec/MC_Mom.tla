-------------------------------- MODULE MC_Mom --------------------------------
(* Design model of the polynomial and moment algebra: all polynomials in N variables of degree at most D    *)
(* with few small integer coefficients, built term by term, and small integer mass distributions.  The      *)
(* invariants are the laws of ordinary polynomial arithmetic; every state is a scenario for the library.    *)
EXTENDS Mom, Json
CONSTANTS N, D, MT, Emit
VARIABLES p, q
B == MonBasis(N, D)
Cs == {"1", "-1", "2"}
Term(f) == [k |-> "poly", n |-> N, s |-> LET S == SetToSortSeq(DOMAIN f, <) IN [j \in DOMAIN S |-> [i |-> B[S[j]], c |-> f[S[j]]]]]
Above(f, i) == \A j \in DOMAIN f : j < i
Init == p = <<>> /\ q = <<>>
Next == \/ Cardinality(DOMAIN q) = 0 /\ Cardinality(DOMAIN p) < MT /\ \E i \in DOMAIN B, c \in Cs : Above(p, i) /\ p' = (i :> c) @@ p /\ q' = q
        \/ Cardinality(DOMAIN p) > 0 /\ Cardinality(DOMAIN q) < 2 /\ \E i \in DOMAIN B, c \in Cs : Above(q, i) /\ q' = (i :> c) @@ q /\ p' = p
P == Term(p)
Q == Term(q)
Vals == {"-1", "0", "2"}
Points == [1..N -> Vals]
Pts3 == LET S == SetToSeq(Points) IN [j \in DOMAIN S |-> [m |-> RInt(1 + (j % 3)), r |-> S[j]]]
Evaluates == \A x \in Points : PolyAt(PolyAdd(P, Q), x) = RAdd(PolyAt(P, x), PolyAt(Q, x))
Commutes == PSupp(PolyAdd(P, Q)) = PSupp(PolyAdd(Q, P)) /\ \A i \in PSupp(P) \cup PSupp(Q) : CoefOf(PolyAdd(P, Q), i) = CoefOf(PolyAdd(Q, P), i)
Localises == \A k \in 1..(N + 1) : \A x \in Points : PolyAt(PolyLoc(P, B[k]), x) = RMul(MonAt(B[k], x), PolyAt(P, x))
DegreeLaw == (p # <<>> /\ q # <<>>) => LET s == PolyAdd(P, Q) IN
   /\ s.s # <<>> => PolyDeg(s) <= IMax(<<PolyDeg(P), PolyDeg(Q)>>)
   /\ PolyDeg(P) # PolyDeg(Q) => PolyDeg(s) = IMax(<<PolyDeg(P), PolyDeg(Q)>>)
BasisLaw == (p = <<>>) => \A n \in 1..4, d \in 0..4 : LET C == MonBasis(n, d) IN
   /\ Len(C) = Binom(n + d, d)
   /\ {C[k] : k \in DOMAIN C} = {f \in [1..n -> 0..d] : ISum(f) <= d}
   /\ \A k \in 2..Len(C) : ISum(C[k - 1]) <= ISum(C[k])
\* the localising matrix: entrywise moments of the symbolic one; positive semidefinite where the polynomial is non-negative
LocLaw == (p # <<>> /\ q = <<>>) =>
  LET L == LocMatrix(Pts3, P, N, 1) C == MonBasis(N, 1)
      pos == SelectSeq(Pts3, LAMBDA t : RLe("0", PolyAt(P, t.r))) IN
  /\ \A i, j \in DOMAIN C : L[i][j] = LET z == PolyLoc(P, MonAdd(C[i], C[j])) IN
        RSum([k \in DOMAIN z.s |-> RMul(z.s[k].c, MonMoment(Pts3, z.s[k].i))])
  /\ IsPSD(LocMatrix(pos, P, N, 1)) /\ IsPSD(MomMatrix(Pts3, N, D))
Emitted == (Emit /\ p # <<>>) => PrintT("SCN " \o ToJson([n |-> N, p |-> P.s, q |-> Q.s]))
=============================================================================
