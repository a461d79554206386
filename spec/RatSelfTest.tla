--------------------------- MODULE RatSelfTest ---------------------------
(* Checks the Java overrides of Rat and the definitions of Lin against TLA+ integer arithmetic on   *)
(* every pair of fractions with small numerators and denominators, and against each other.         *)
EXTENDS Lin
CONSTANT N
ASSUME N \in Nat
Nums == -N..N
Dens == 1..N
Fr == {<<n, d>> : n \in Nums, d \in Dens}
R(f) == RMk(f[1], f[2])
VARIABLES f, g
vars == <<f, g>>
Init == f \in Fr /\ g \in Fr
Next == UNCHANGED vars
Eq(r, n, d) == r = RMk(n, d)
abs(x) == IF x < 0 THEN -x ELSE x
Laws ==
  LET a == R(f) b == R(g) n == f[1] d == f[2] m == g[1] e == g[2] IN
  /\ (a = b) <=> (n * e = m * d)
  /\ RIsNum(a) /\ ~RIsNum("nan") /\ ~RIsNum("inf") /\ ~RIsNum("")
  /\ Eq(RAdd(a, b), n * e + m * d, d * e)
  /\ Eq(RSub(a, b), n * e - m * d, d * e)
  /\ Eq(RMul(a, b), n * m, d * e)
  /\ m # 0 => Eq(RDiv(a, b), n * e, d * m)
  /\ Eq(RNeg(a), -n, d)
  /\ Eq(RAbs(a), abs(n), d)
  /\ RLt(a, b) <=> n * e < m * d
  /\ RLe(a, b) <=> n * e <= m * d
  /\ RMax(a, b) = (IF n * e < m * d THEN b ELSE a)
  /\ RMin(a, b) = (IF n * e > m * d THEN b ELSE a)
  /\ RSign(a) = (IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0)
  /\ RFloor(a) * d <= n /\ n < (RFloor(a) + 1) * d
  /\ RSqrt(RMul(a, a)) = RAbs(a)
  /\ n >= 0 => LET s == RSqrt(a) IN RLe(RMul(s, s), a) /\ RLe(RAbs(RSub(RMul(s, s), a)), RMk(1, 1000000000))
  /\ RSum(<<a, b, a>>) = RAdd(a, RAdd(a, b))
  /\ RDot(<<a, b>>, <<b, "3">>) = RAdd(RMul(a, b), RMul("3", b))
  /\ Det(<< <<a, b>>, <<b, a>> >>) = RSub(Sq(a), Sq(b))
  /\ LET M == << <<a, b, "1">>, <<b, "2", "0">>, <<"1", "0", "3">> >> IN
       /\ Det(M) = Det(Transp(M))
       /\ Det(M) # "0" => MatMul(M, MInverse(M)) = Eye(3)
       /\ (Rank(M) = 3) <=> (Det(M) # "0")
       \* positive semidefinite <=> all principal minors are non-negative
       /\ IsPSD(M) <=> /\ RLe("0", a) /\ RLe("0", Det(M))
                       /\ RLe("0", RSub(RMul(a, "2"), Sq(b))) /\ RLe("0", RSub(RMul("3", a), "1"))
       /\ IsPD(M) <=> RLt("0", a) /\ RLt("0", RSub(RMul(a, "2"), Sq(b))) /\ RLt("0", Det(M))
  /\ LET q == <<"1", a, b, "2">> IN IsRotation(QuatRot(q))
  /\ LET u == <<a, b, "1">> v == <<b, "2", a>> IN
       MatVec(Skew(u), v) = Cross(u, v) /\ RDot(Cross(u, v), u) = "0"
=============================================================================
