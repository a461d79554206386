---------------------------------- MODULE Mom ----------------------------------
(* Polynomials, monomial bases, moment matrices and localising matrices, exactly; and the comparison of   *)
(* matrices up to the order of their rows.                                                                *)
(* A monomial is the sequence of its exponents.  A polynomial in the heap is [k |-> "poly", n, s]: s is a  *)
(* sequence of terms [i |-> exponents, c |-> coefficient], at most one per monomial, none zero.            *)
EXTENDS Opt

RECURSIVE RIPow(_, _)
RIPow(x, k) == IF k = 0 THEN "1" ELSE RMul(x, RIPow(x, k - 1))
MonAt(i, x) == RProd([j \in DOMAIN i |-> RIPow(x[j], i[j])])
MonAdd(a, b) == [j \in DOMAIN a |-> a[j] + b[j]]
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
RECURSIVE IMax(_)
IMax(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == IMax(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m

\* ---- polynomials as functions from monomials to coefficients, zero elsewhere ----
CoefOf(p, i) == IF \E k \in DOMAIN p.s : p.s[k].i = i THEN p.s[CHOOSE k \in DOMAIN p.s : p.s[k].i = i].c ELSE "0"
PSupp(p) == {p.s[k].i : k \in DOMAIN p.s}
MkPolyn(n, S, F(_)) == LET T == SetToSeq({i \in S : F(i) # "0"}) IN
                     [k |-> "poly", n |-> n, s |-> TLCEval([j \in DOMAIN T |-> [i |-> T[j], c |-> F(T[j])]])]
\* coefficients no larger than tol are dropped
PolyOfTerms(n, ts, tol) == LET q == [k |-> "poly", n |-> n, s |-> ts] IN
   MkPolyn(n, PSupp(q), LAMBDA i : IF RLe(RAbs(CoefOf(q, i)), tol) THEN "0" ELSE CoefOf(q, i))
PolyAdd(p, q) == MkPolyn(p.n, PSupp(p) \cup PSupp(q), LAMBDA i : RAdd(CoefOf(p, i), CoefOf(q, i)))
PolyLoc(p, m) == [p EXCEPT !.s = [k \in DOMAIN p.s |-> [i |-> MonAdd(p.s[k].i, m), c |-> p.s[k].c]]]
PolyAt(p, x) == RSum([k \in DOMAIN p.s |-> RMul(p.s[k].c, MonAt(p.s[k].i, x))])
PolyScaleAt(p, x) == RSum([k \in DOMAIN p.s |-> RAbs(RMul(p.s[k].c, MonAt(p.s[k].i, x)))])
PolyDeg(p) == IMax([k \in DOMAIN p.s |-> ISum(p.s[k].i)])
MonUnit(j, n) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
MonOne(n) == [i \in 1..n |-> 0]
\* b - a . x
PolyAffine(a, b, tol) == LET n == Len(a) IN
   PolyOfTerms(n, <<[i |-> MonOne(n), c |-> b]>> \o [j \in 1..n |-> [i |-> MonUnit(j, n), c |-> RNeg(a[j])]], tol)

\* ---- monomials up to degree d: by degree, then lexicographically with the first variable first ----
RECURSIVE MonsOfDeg(_, _)
MonsOfDeg(n, d) == IF n = 0 THEN (IF d = 0 THEN << <<>> >> ELSE <<>>)
   ELSE LET MonPart(k) == LET T == MonsOfDeg(n - 1, d - k) IN [j \in DOMAIN T |-> <<k>> \o T[j]]
            RECURSIVE Cat(_)
            Cat(k) == IF k < 0 THEN <<>> ELSE MonPart(k) \o Cat(k - 1)
        IN Cat(d)
RECURSIVE MonBasis(_, _)
MonBasis(n, d) == IF d = 0 THEN MonsOfDeg(n, 0) ELSE MonBasis(n, d - 1) \o MonsOfDeg(n, d)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

\* ---- moments of a finite mass distribution pts = <<[m, r]>> ----
MonMoment(pts, i) == RSum([k \in DOMAIN pts |-> RMul(pts[k].m, MonAt(i, pts[k].r))])
MomMatrix(pts, n, d) == LET B == MonBasis(n, d) IN
   TLCEval([i \in DOMAIN B |-> [j \in DOMAIN B |-> MonMoment(pts, MonAdd(B[i], B[j]))]])
BasisAt(n, d, x) == LET B == MonBasis(n, d) IN TLCEval([i \in DOMAIN B |-> MonAt(B[i], x)])
LocMatrix(pts, p, n, d) ==     \* mass-weighted sum of p(x) b(x) b(x)^T
  LET r == Binom(n + d, d) IN
  MSumSeq([k \in DOMAIN pts |-> LET b == BasisAt(n, d, pts[k].r) IN MScale(RMul(pts[k].m, PolyAt(p, pts[k].r)), Outer(b, b))], r, r)
LocScale(pts, p, n, d) ==
  RAdd("1", RMaxSeq([k \in DOMAIN pts |-> RMul(RMul(RAbs(pts[k].m), RAdd("1", PolyScaleAt(p, pts[k].r))),
                                                Sq(RAdd("1", VMaxAbs(BasisAt(n, d, pts[k].r)))))]))
HalfUp(k) == (k + 1) \div 2

\* ---- observed terms: sequence of [i, c] ----
TermsOk(obs, p, t) ==        \* the observed polynomial is p, coefficients within t (a coefficient within t of zero may be absent)
  LET q == [k |-> "poly", n |-> p.n, s |-> obs] IN
  /\ \A k \in DOMAIN obs : Len(obs[k].i) = p.n /\ RIsNum(obs[k].c)
  /\ \A k, l \in DOMAIN obs : obs[k].i = obs[l].i => k = l
  /\ \A i \in PSupp(p) \cup PSupp(q) : NearT(CoefOf(q, i), CoefOf(p, i), t)
PolyTol(p) == RMul("1/1000000000000", RMaxSeq(<<"0">> \o [k \in DOMAIN p.s |-> RAbs(p.s[k].c)]))

\* ---- rows as multisets ----
\* numpy.isclose(a, b): |a - b| <= atol + rtol |b|; rows whose comparison is not clear are not judged.  NaN equals only
\* NaN, and that only with equal_nan.
ElClose(a, b, e, f) ==
  IF ~RIsNum(a) \/ ~RIsNum(b) THEN a = b /\ a = "nan" /\ e.equal_nan
  ELSE RLe(RAbs(RSub(a, b)), RMul(f, RAdd(e.atol, RMul(e.rtol, RAbs(b)))))
RowClose(a, b, e, f) == \A j \in DOMAIN a : ElClose(a[j], b[j], e, f)
RowsClear(A, B, e) == \A i \in DOMAIN A, j \in DOMAIN B : RowClose(A[i], B[j], e, "999999/1000000") = RowClose(A[i], B[j], e, "1000001/1000000")
\* "rows are either equal or clearly different": closeness groups the rows into classes
Closes(A, B, e) == TLCEval([i \in DOMAIN A |-> {j \in DOMAIN B : RowClose(A[i], B[j], e, "1")}])
RowsClassed(A, B, e) == LET S == Closes(A, B, e) IN \A i, k \in DOMAIN A : S[i] \cap S[k] = {} \/ S[i] = S[k]
SameRowBag(A, B, e) == LET S == Closes(A, B, e) IN
   \A i \in DOMAIN A : S[i] # {} /\ Cardinality({k \in DOMAIN A : S[k] \cap S[i] # {}}) = Cardinality(S[i])

MomOps == {"poly.new", "poly.affine", "poly.ones", "poly.zeros", "poly.add", "poly.loc", "poly.read", "poly.basis",
           "idx.ops", "mm.indices", "mm.loc", "mm.numloc", "mm.lin", "mm.psd", "tu.unordered"}
MomStep(hp, e) ==
  CASE e.op = "poly.new" -> NoExc(e, Res(Put(hp, e.id, PolyOfTerms(e.n, e.s, Arg(e, "tol", "0"))), {}))
    [] e.op = "poly.affine" -> NoExc(e, Res(Put(hp, e.id, PolyAffine(e.a, e.b, Arg(e, "tol", "0"))), {}))
    [] e.op = "poly.ones" -> LET B == MonBasis(e.n, e.d) IN
         NoExc(e, Res(Put(hp, e.id, [k |-> "poly", n |-> e.n, s |-> [j \in DOMAIN B |-> [i |-> B[j], c |-> "1"]]]), {}))
    [] e.op = "poly.zeros" -> NoExc(e, Res(Put(hp, e.id, [k |-> "poly", n |-> e.n, s |-> <<>>]), {}))
    [] e.op = "poly.add" -> NoExc(e, Res(Put(hp, e.id, PolyAdd(hp[e.x], hp[e.y])), {}))
    [] e.op = "poly.loc" -> NoExc(e, Res(Put(hp, e.id, PolyLoc(hp[e.of], e.i)), {}))
    [] e.op = "poly.read" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET p == hp[e.of] IN
         Res(hp, Must(TermsOk(e.o.terms, p, PolyTol(p)), "terms of the polynomial")
            \cup (IF p.s = <<>> \/ ~e.exact THEN {} ELSE Must(e.o.degree.t = "num" /\ e.o.degree.v = RInt(PolyDeg(p)), "degree"))
            \cup Must(Len(e.o.vals) = Len(e.pts) /\ \A k \in DOMAIN e.pts : ONum(e.o.vals[k], PolyAt(p, e.pts[k]), Tol(PolyScaleAt(p, e.pts[k]))), "value at a point"))
    [] e.op = "poly.basis" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET B == MonBasis(e.n, e.d) IN
         Res(hp, Must(Len(e.o.basis) = Len(B) /\ {e.o.basis[k] : k \in DOMAIN e.o.basis} = {B[k] : k \in DOMAIN B}, "every monomial exactly once")
            \cup Must(\A k \in 2..Len(e.o.basis) : ISum(e.o.basis[k - 1]) <= ISum(e.o.basis[k]), "graded order")
            \cup Must(e.o.basis = B, "order of the monomials")
            \cup Must(e.o.dim = Binom(e.n + e.d, e.d), "dimension of the basis"))
    [] e.op = "idx.ops" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         Res(hp, Must(e.o.sum = MonAdd(e.x, e.y) /\ e.o.prod = MonAdd(e.x, e.y) /\ e.o.total = MonAdd(e.x, e.y), "product of monomials")
            \cup Must(e.o.eq = (e.x = e.y) /\ (e.x = e.y => e.o.samehash), "equality of monomials"))
    [] e.op = "mm.indices" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET B == MonBasis(e.n, e.d) IN
         Res(hp, Must(e.o.r = Len(B) /\ e.o.shape = <<Len(B), Len(B)>>, "size of the moment matrix")
            \cup Must(e.o.idx = [i \in DOMAIN B |-> [j \in DOMAIN B |-> MonAdd(B[i], B[j])]], "entries are products of basis monomials"))
    \* symbolic localising matrix of order dl
    [] e.op = "mm.loc" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET B == MonBasis(e.n, e.dl) p == hp[e.of] IN
         Res(hp, Must(Len(e.o.L) = Len(B) /\ \A i \in DOMAIN B : Len(e.o.L[i]) = Len(B) /\
                 \A j \in DOMAIN B : TermsOk(e.o.L[i][j], PolyLoc(p, MonAdd(B[i], B[j])), PolyTol(p)), "symbolic localising matrix"))
    \* numeric localising matrix at the moments of a finite mass distribution
    [] e.op = "mm.numloc" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET p == hp[e.of] dl == e.d - HalfUp(PolyDeg(p)) IN
         Res(hp, Must(OMat(e.o.L, LocMatrix(e.pts, p, e.n, dl), Tol(LocScale(e.pts, p, e.n, e.d))), "numeric localising matrix"))
    \* the linear constraints hold at the symmetric matrix of the moments of pts plus the perturbation e.dM
    [] e.op = "mm.lin" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET B == MonBasis(e.n, e.d)
             \* the perturbation keeps equal entries at equal moments
             ok == \A i, j, k, l \in DOMAIN B : MonAdd(B[i], B[j]) = MonAdd(B[k], B[l]) => e.dM[i][j] = e.dM[k][l]
             s == RAdd("1", MMaxAbs(MomMatrix(e.pts, e.n, e.d))) IN
         Res(hp, IF ~(e.o.viol.t = "num" /\ RIsNum(e.o.viol.v)) THEN {"violation of the constraints is a number"}
                 ELSE IF ok THEN Must(RLe(e.o.viol.v, Tol(s)), "a moment matrix violates the moment constraints")
                 ELSE Must(RLt("1/1000", e.o.viol.v), "unequal entries for equal moments accepted"))
    \* feasibility of the localising constraints at the moments of pts (possibly of signed mass)
    [] e.op = "mm.psd" ->
         IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
         LET Ls == [k \in DOMAIN e.ps |-> LocMatrix(e.pts, hp[e.ps[k]], e.n, e.d - HalfUp(PolyDeg(hp[e.ps[k]])))]
             yes == \A k \in DOMAIN Ls : IsPSD(Ls[k])
             no == \E k \in DOMAIN Ls : ~IsPSD(Shift(Ls[k], "1")) IN
         Res(hp, IF ~OIsNum(e.o.dist) THEN {"distance to the constraints is a number"}
                 ELSE (IF yes THEN Must(RLe(e.o.dist.v, RMul("1/1000", RAdd("1", RMaxSeq([k \in DOMAIN Ls |-> MMaxAbs(Ls[k])])))), "localising constraints reject a distribution on the set") ELSE {})
                 \cup (IF no THEN Must(RLt("1/1000", e.o.dist.v), "localising constraints accept an indefinite localising matrix") ELSE {}))
    [] e.op = "tu.unordered" ->
         IF ~(Len(e.A) = Len(e.B) /\ e.na = e.nb) THEN Refused(e, hp)
         ELSE IF e.exc # "" THEN Res(hp, {"raised " \o e.exc})
         ELSE Res(hp, IF ~RowsClear(e.A, e.B, e) \/ ~RowsClassed(e.A, e.B, e) THEN {}
                      ELSE Must(e.o.ans.t = "bool", "answer is a truth value")
                           \cup Must(e.o.ans.v = SameRowBag(e.A, e.B, e), "same rows with the same multiplicities"))
=============================================================================
