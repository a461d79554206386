------------------------------- MODULE Obs -------------------------------
(* Values observed from the implementation.  An observation is a record [t, v, sh]: t is the kind    *)
(* ("num", "vec", "mat", "ten", "bool", "bools", "boolmat", "none", "str", "exc", "obj"), v the value *)
(* (numbers are exact rationals as strings, or "nan"/"inf"/"-inf"), sh the array shape.              *)
EXTENDS Lin

ONum(o, x, t)   == o.t = "num" /\ NearT(o.v, x, t)
OVec(o, x, t)   == o.t = "vec" /\ VNearT(o.v, x, t)
OMat(o, x, t)   == o.t = "mat" /\ MNearT(o.v, x, t)
OBool(o, b)     == o.t = "bool" /\ o.v = b
OBools(o, n)    == o.t = "bools" /\ Len(o.v) = n
OIsNum(o)       == o.t = "num" /\ RIsNum(o.v)
OIsVec(o, n)    == o.t = "vec" /\ Len(o.v) = n /\ VIsNum(o.v)
OIsMat(o, n, m) == o.t = "mat" /\ Len(o.v) = n /\ o.sh = <<n, m>> /\ MIsNum(o.v)
OIsPts(o, m)    == o.t = "mat" /\ Len(o.sh) = 2 /\ o.sh[2] = m /\ MIsNum(o.v)
\* violated clauses: If(cond, name) contributes {name} when the condition fails
Must(c, name) == IF c THEN {} ELSE {name}
HasF(r, f) == f \in DOMAIN r
Arg(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt
\* the vector named by field f, or zero / identity when the argument was omitted
VecArg(e, f, n) == IF f \in DOMAIN e THEN e[f] ELSE VZero(n)
\* a rotation: "q" an integer quaternion, or "R" an explicit exact matrix, or omitted
RotArg(e, n) == IF "q" \in DOMAIN e THEN QuatRot(e.q) ELSE IF "R" \in DOMAIN e THEN e.R ELSE Eye(n)
Eps9 == "1/1000000000"
Eps7 == "1/10000000"
Eps6 == "1/1000000"
Eps5 == "1/100000"
Eps4 == "1/10000"
\* relative tolerance 1e-9 of a scale
RPow(a, n) == IF n = 0 THEN "1" ELSE RProd([i \in 1..n |-> a])
Tol(s) == RMul(Eps9, s)
=============================================================================
