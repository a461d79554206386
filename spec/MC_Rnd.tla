-------------------------------- MODULE MC_Rnd --------------------------------
(* Design model of the distributions and lattices: the expected frequencies and moments of the uniform      *)
(* distributions against their definitions, and the bijection of lattice indices and coordinates.           *)
EXTENDS Rnd, Json
CONSTANT Big
VARIABLE c
Ls == IF Big THEN {"1/4", "1", "2", "7/2"} ELSE {"1/2", "2"}
Init == c \in {[t |-> "box", he |-> <<a, b, d>>] : a \in Ls, b \in Ls, d \in Ls} \cup {[t |-> "cap", L |-> a, r |-> b] : a \in Ls \cup {"0"}, b \in Ls}
          \cup {[t |-> "grid", n |-> k] : k \in 2..(IF Big THEN 9 ELSE 6)}
Next == UNCHANGED c
Box0 == MkBox(c.he, VZero(3), Eye(3))
H0 == [s |-> Box0]
X(f) == Expected(H0, [of |-> "s", f |-> f])
Val(S, name) == LET i == CHOOSE i \in DOMAIN S : S[i][1] = name IN S[i][2]
SumOf(S, names) == RSum([i \in DOMAIN names |-> Val(S, names[i])])
\* faces, edges and orthants partition the target; every variance bound is one
Partition == c.t = "box" =>
  /\ SumOf(X("surface"), [k \in 1..6 |-> FaceName(k)]) = "1" /\ SumOf(X("edges"), [k \in 1..12 |-> FaceName(k)]) = "1"
  /\ SumOf(X("points"), [k \in 1..8 |-> "o" \o Nm(k - 1)]) = "1"
  \* opposite faces alike; larger faces more often
  /\ \A i \in 1..3 : Val(X("surface"), FaceName(2 * i)) = Val(X("surface"), FaceName(2 * i - 1))
  /\ \A i, j \in 1..3 : RLt(c.he[i], c.he[j]) => RLt(Val(X("surface"), FaceName(2 * j)), Val(X("surface"), FaceName(2 * i)))
  /\ \A f \in {"points", "surface", "edges"} : \A k \in DOMAIN X(f) : RLe("0", X(f)[k][3]) /\ RLe(X(f)[k][3], "1") /\ RLe(X(f)[k][2], "1")
\* conditioning on the faces perpendicular to an axis gives the total second moment
Total == c.t = "box" => \A i \in 1..3 :
  LET S == X("surface") p == RMul("2", Val(S, FaceName(2 * i))) IN Val(S, "q" \o Nm(i) \o Nm(i)) = RAdd(p, RMul(RSub("1", p), "1/3"))
\* the capsule by its cross sections: radius squared is r^2 - max(0, |z| - L/2)^2; Boole's rule is exact up to degree 5
R2(z) == RSub(Sq(c.r), Sq(RMax("0", RSub(RAbs(z), Half(c.L)))))
Boole(f(_), a, b) == LET h == RDiv(RSub(b, a), "4") x(k) == RAdd(a, RMul(RMk(k, 1), h)) IN
  RMul(RDiv(RMul("2", h), "45"), RSum(<<RMul("7", f(x(0))), RMul("32", f(x(1))), RMul("12", f(x(2))), RMul("32", f(x(3))), RMul("7", f(x(4)))>>))
IntOver(f(_)) == LET h == Half(c.L) IN RMul("2", RAdd(Boole(f, "0", h), Boole(f, h, RAdd(h, c.r))))
CapExact == c.t = "cap" =>
  LET p == CapParts([L |-> c.L, r |-> c.r]) V == IntOver(R2) h == Half(c.L) IN
  /\ p[1] = RDiv(RMul("2", Boole(R2, "0", h)), V)
  /\ p[2] = RDiv(IntOver(LAMBDA z : RMul("1/4", Sq(R2(z)))), V)
  /\ p[3] = RDiv(IntOver(LAMBDA z : RMul(Sq(z), R2(z))), V)
GridBijection == c.t = "grid" => \A k \in 0..(c.n - 1) :
  /\ GIdx(GCoord(k, c.n), c.n) = k /\ RLe(RAbs(GCoord(k, c.n)), "1") /\ GCoord(c.n - 1 - k, c.n) = RNeg(GCoord(k, c.n))
  /\ GIdx(RAdd(GCoord(k, c.n), "1/100"), c.n) = k /\ GIdx(RSub(GCoord(k, c.n), "1/100"), c.n) = k
  /\ GCoord(0, c.n) = "-1" /\ (k > 0 => RSub(GCoord(k, c.n), GCoord(k - 1, c.n)) = RMk(2, c.n - 1))
Emitted == PrintT("SCN " \o ToJson(c))
=============================================================================
