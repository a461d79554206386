------------------------------- MODULE Rat -------------------------------
(* Exact rational numbers.  A rational is the string "n" or "n/d" in lowest terms, so that the     *)
(* numbers of a recorded execution (binary64 values are rationals) are compared exactly and never  *)
(* overflow TLC's 32-bit integers.  The definitions below state what each operator means; TLC      *)
(* evaluates the Java overrides in java/Rat.java, which RatSelfTest.tla checks against TLA+ integer *)
(* arithmetic over a finite range of operands.                                                     *)
EXTENDS Integers, Sequences

RIsNum(s) == s \in STRING                 \* the string denotes a rational (not "nan", "inf", ...)
Rational == {s \in STRING : RIsNum(s)}
(* Num(r), Den(r): the numerator and denominator; abstract here, computed by the overrides.        *)
Num(r) == CHOOSE n \in Int : TRUE
Den(r) == CHOOSE d \in Int \ {0} : TRUE
RMk(n, d) == CHOOSE r \in Rational : Num(r) * d = n * Den(r)
RInt(n)   == RMk(n, 1)
RAdd(a, b) == RMk(Num(a) * Den(b) + Num(b) * Den(a), Den(a) * Den(b))
RSub(a, b) == RMk(Num(a) * Den(b) - Num(b) * Den(a), Den(a) * Den(b))
RMul(a, b) == RMk(Num(a) * Num(b), Den(a) * Den(b))
RDiv(a, b) == RMk(Num(a) * Den(b), Den(a) * Num(b))
RNeg(a)    == RMk(-Num(a), Den(a))
RLt(a, b)  == Num(a) * Den(b) < Num(b) * Den(a)
RLe(a, b)  == Num(a) * Den(b) <= Num(b) * Den(a)
RAbs(a)    == IF RLt(a, "0") THEN RNeg(a) ELSE a
RSign(a)   == IF RLt(a, "0") THEN -1 ELSE IF a = "0" THEN 0 ELSE 1
RMax(a, b) == IF RLe(b, a) THEN a ELSE b
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RFloor(a)  == CHOOSE n \in Int : RLe(RInt(n), a) /\ RLt(a, RInt(n + 1))
(* the exact root when there is one, else the root rounded down to a multiple of 10^-40            *)
RSqrt(a)   == CHOOSE r \in Rational : RLe("0", r) /\ (r = a \/ RLe(RMul(r, r), a))
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(u, v) == RSum([i \in DOMAIN u |-> RMul(u[i], v[i])])
=============================================================================
