------------------------------- MODULE Lin -------------------------------
(* Exact linear algebra over Rat: vectors are sequences of rationals, matrices sequences of rows.  *)
EXTENDS Rat, TLC, FiniteSets

Sq(a) == RMul(a, a)
Half(a) == RDiv(a, "2")
VZero(n) == TLCEval([i \in 1..n |-> "0"])
VAdd(u, v) == TLCEval([i \in DOMAIN u |-> RAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in DOMAIN u |-> RSub(u[i], v[i])])
VScale(a, v) == TLCEval([i \in DOMAIN v |-> RMul(a, v[i])])
VNeg(v) == VScale("-1", v)
VMul(u, v) == TLCEval([i \in DOMAIN u |-> RMul(u[i], v[i])])        \* elementwise
Norm2(v) == RDot(v, v)
Cross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                  RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                  RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
RECURSIVE VSumSeq(_, _)
VSumSeq(s, n) == IF s = <<>> THEN VZero(n) ELSE VAdd(Head(s), VSumSeq(Tail(s), n))
RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 0 THEN "0" ELSE IF Len(s) = 1 THEN s[1] ELSE RMax(Head(s), RMaxSeq(Tail(s)))
RECURSIVE RMinSeq(_)
RMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(Head(s), RMinSeq(Tail(s)))
VMaxAbs(v) == RMaxSeq([i \in DOMAIN v |-> RAbs(v[i])])
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN "1" ELSE RMul(Head(s), RProd(Tail(s)))

Rows(M) == Len(M)
Cols(M) == Len(M[1])
Transp(M) == TLCEval([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]])
MatVec(M, v) == TLCEval([i \in DOMAIN M |-> RDot(M[i], v)])
MatMul(A, B) == LET T == Transp(B) IN TLCEval([i \in DOMAIN A |-> [j \in DOMAIN T |-> RDot(A[i], T[j])]])
MAdd(A, B) == TLCEval([i \in DOMAIN A |-> VAdd(A[i], B[i])])
MSub(A, B) == TLCEval([i \in DOMAIN A |-> VSub(A[i], B[i])])
MScale(a, M) == TLCEval([i \in DOMAIN M |-> VScale(a, M[i])])
Outer(u, v) == TLCEval([i \in DOMAIN u |-> VScale(u[i], v)])
Diag(v) == TLCEval([i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE "0"]])
DiagOf(M) == TLCEval([i \in DOMAIN M |-> M[i][i]])
Eye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]])
MZero(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> "0"]])
Trace(M) == RSum([i \in DOMAIN M |-> M[i][i]])
MMaxAbs(M) == RMaxSeq([i \in DOMAIN M |-> VMaxAbs(M[i])])
RECURSIVE MSumSeq(_, _, _)
MSumSeq(s, n, m) == IF s = <<>> THEN MZero(n, m) ELSE MAdd(Head(s), MSumSeq(Tail(s), n, m))
Skew(v) == << <<"0", RNeg(v[3]), v[2]>>, <<v[3], "0", RNeg(v[1])>>, <<RNeg(v[2]), v[1], "0">> >>
Col(M, j) == TLCEval([i \in DOMAIN M |-> M[i][j]])
VAppend(v, a) == TLCEval([i \in 1..(Len(v) + 1) |-> IF i <= Len(v) THEN v[i] ELSE a])
QForm(M, v) == RDot(v, MatVec(M, v))

(* Block matrix from a 2 x 2 arrangement. *)
HStack(A, B) == TLCEval([i \in DOMAIN A |-> [j \in 1..(Cols(A) + Cols(B)) |->
                  IF j <= Cols(A) THEN A[i][j] ELSE B[i][j - Cols(A)]]])
VStack(A, B) == TLCEval([i \in 1..(Len(A) + Len(B)) |-> IF i <= Len(A) THEN A[i] ELSE B[i - Len(A)]])
Block(A, B, C, D) == VStack(HStack(A, B), HStack(C, D))

(* Minor of row 1, column j *)
MinorOf(M, r, c) == TLCEval([i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |->
                 M[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]])
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN "1" ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE IF Len(M) = 2 THEN RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1]))
          ELSE RSum([j \in 1..Len(M) |->
               IF M[1][j] = "0" THEN "0"
               ELSE RMul(RMul(IF j % 2 = 1 THEN "1" ELSE "-1", M[1][j]), Det(MinorOf(M, 1, j)))])
MInverse(M) == LET d == Det(M) IN
   TLCEval([i \in DOMAIN M |-> [j \in DOMAIN M |->
       RMul(IF (i + j) % 2 = 0 THEN "1" ELSE "-1", RDiv(IF Len(M) = 1 THEN "1" ELSE Det(MinorOf(M, j, i)), d))]])

(* Exact test for positive semidefiniteness of a symmetric matrix by symmetric elimination. *)
RECURSIVE IsPSD(_)
IsPSD(M) ==
   IF Len(M) = 0 THEN TRUE
   ELSE LET p == M[1][1] n == Len(M) IN
     IF RLt(p, "0") THEN FALSE
     ELSE IF p = "0" THEN /\ \A j \in 2..n : M[1][j] = "0" /\ M[j][1] = "0"
                          /\ IsPSD(TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> M[i + 1][j + 1]]]))
     ELSE IsPSD(TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
              RSub(M[i + 1][j + 1], RDiv(RMul(M[i + 1][1], M[1][j + 1]), p))]]))
RECURSIVE IsPD(_)
IsPD(M) ==
   IF Len(M) = 0 THEN TRUE
   ELSE LET p == M[1][1] n == Len(M) IN
     /\ RLt("0", p)
     /\ IsPD(TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
              RSub(M[i + 1][j + 1], RDiv(RMul(M[i + 1][1], M[1][j + 1]), p))]]))
Shift(M, a) == TLCEval([i \in DOMAIN M |-> [j \in DOMAIN M |-> IF i = j THEN RAdd(M[i][j], a) ELSE M[i][j]]])
IsPSDTol(M, t) == IsPSD(Shift(M, t))                 \* all eigenvalues >= -t

(* Rank by elimination, for small matrices given as sequences of rows *)
RECURSIVE Rank(_)
Rank(M) ==
   IF Len(M) = 0 THEN 0 ELSE IF Len(M[1]) = 0 THEN 0
   ELSE LET n == Len(M) k == Len(M[1])
            piv == {i \in 1..n : M[i][1] # "0"} IN
     IF piv = {} THEN Rank(TLCEval([i \in 1..n |-> [j \in 1..(k - 1) |-> M[i][j + 1]]]))
     ELSE LET r == CHOOSE i \in piv : TRUE
              others == TLCEval([i \in 1..(n - 1) |-> M[IF i < r THEN i ELSE i + 1]]) IN
          1 + Rank(TLCEval([i \in 1..(n - 1) |-> [j \in 1..(k - 1) |->
                   RSub(others[i][j + 1], RDiv(RMul(others[i][1], M[r][j + 1]), M[r][1]))]]))

(* Rotation matrix of the (non-normalised) integer quaternion q = <<w, x, y, z>>, q # 0 : exactly
   orthogonal with determinant 1. *)
QuatRot(q) ==
   LET w == q[1] x == q[2] y == q[3] z == q[4]
       n == RSum(<<Sq(w), Sq(x), Sq(y), Sq(z)>>)
       t(a) == RDiv(a, n)
       m2(a, b) == RMul("2", RMul(a, b)) IN
   << << t(RSub(RSub(RAdd(Sq(w), Sq(x)), Sq(y)), Sq(z))), t(RSub(m2(x, y), m2(w, z))), t(RAdd(m2(x, z), m2(w, y))) >>,
      << t(RAdd(m2(x, y), m2(w, z))), t(RSub(RAdd(RSub(Sq(w), Sq(x)), Sq(y)), Sq(z))), t(RSub(m2(y, z), m2(w, x))) >>,
      << t(RSub(m2(x, z), m2(w, y))), t(RAdd(m2(y, z), m2(w, x))), t(RAdd(RSub(RSub(Sq(w), Sq(x)), Sq(y)), Sq(z))) >> >>
IsRotation(R) == MatMul(R, Transp(R)) = Eye(Len(R)) /\ Det(R) = "1"

(* Comparison of observed (rounded) values with exact ones: the error may be at most 1e-9 of the
   given scale (the magnitude of the quantities the value was computed from), plus 1e-13. *)
RelTol == "1/1000000000"
AbsTol == "1/10000000000000"
NearT(a, b, t) == RIsNum(a) /\ RLe(RAbs(RSub(a, b)), t)
TolOf(scale) == RAdd(RMul(RelTol, scale), AbsTol)
Near(a, b, scale) == NearT(a, b, TolOf(scale))
VNearT(u, v, t) == Len(u) = Len(v) /\ \A i \in DOMAIN v : NearT(u[i], v[i], t)
VNear(u, v, scale) == VNearT(u, v, TolOf(scale))
MNearT(A, B, t) == Len(A) = Len(B) /\ \A i \in DOMAIN B : VNearT(A[i], B[i], t)
MNear(A, B, scale) == MNearT(A, B, TolOf(scale))
VIsNum(v) == \A i \in DOMAIN v : RIsNum(v[i])
MIsNum(M) == \A i \in DOMAIN M : VIsNum(M[i])
IsSeqOfLen(v, n) == Len(v) = n
=============================================================================
