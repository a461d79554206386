------------------------------- MODULE Poly -------------------------------
(* Convex polyhedra in both descriptions, exactly.                                                  *)
(* A polyhedral cone is described by its generators (sequence of vectors) or by its facets.  A       *)
(* polyhedron conv(V) + cone(Rays) is the slice t = 1 of the cone generated by <<1, v>> and <<0, r>>; *)
(* {x : A x <= b} is the slice t = 1 of the cone {(t, x) : b_i t - a_i x >= 0, t >= 0}.  Duality maps *)
(* generators of one to facets of the other, so one operator, ConeFacets, serves both conversions.   *)
EXTENDS Obs, FiniteSetsExt, SequencesExt

KSubs(k, S) == IF k > Cardinality(S) THEN {} ELSE IF k = 0 THEN {{}} ELSE kSubset(k, S)
IsZeroV(v) == \A i \in DOMAIN v : v[i] = "0"
\* canonical positive multiple of a non-zero vector: largest absolute entry 1
Canon(v) == LET m == VMaxAbs(v) IN IF m = "0" THEN v ELSE VScale(RDiv("1", m), v)

\* basis of {x : M x = 0} for a sequence of rows M with n columns, by exact elimination
RECURSIVE RrefFrom(_, _, _)
RrefFrom(M, r, c) ==    \* reduce using columns c.., with r pivot rows already placed at the top
  IF r >= Len(M) THEN M
  ELSE IF c > Len(M[1]) THEN M
  ELSE LET piv == {i \in (r + 1)..Len(M) : M[i][c] # "0"} IN
    IF piv = {} THEN RrefFrom(M, r, c + 1)
    ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
             prow == VScale(RDiv("1", M[p][c]), M[p])
             N == TLCEval([i \in DOMAIN M |->
                    IF i = r + 1 THEN prow
                    ELSE LET src == IF i = p THEN M[r + 1] ELSE M[i] IN
                         IF src[c] = "0" THEN src ELSE VSub(src, VScale(src[c], prow))])
         IN RrefFrom(N, r + 1, c + 1)
NonZeroRows(M) == SelectSeq(M, LAMBDA r : ~IsZeroV(r))
PivotOf(r) == CHOOSE c \in DOMAIN r : r[c] # "0" /\ \A k \in 1..(c - 1) : r[k] = "0"
NullBasis(M, n) ==
  IF Len(M) = 0 THEN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
  ELSE LET W == NonZeroRows(RrefFrom(M, 0, 1))
           P == TLCEval([i \in DOMAIN W |-> PivotOf(W[i])])
           free == SetToSortSeq({c \in 1..n : \A i \in DOMAIN P : P[i] # c}, <)
       IN TLCEval([k \in DOMAIN free |-> [c \in 1..n |->
            IF c = free[k] THEN "1"
            ELSE IF \E i \in DOMAIN P : P[i] = c
                 THEN RNeg(W[CHOOSE i \in DOMAIN P : P[i] = c][free[k]]) ELSE "0"]])
RankOf(M, n) == n - Len(NullBasis(M, n))

\* the vector orthogonal to n-1 given vectors of R^n (zero when they are dependent)
CrossN(rows, n) == TLCEval([j \in 1..n |->
   RMul(IF j % 2 = 1 THEN "1" ELSE "-1",
        Det(TLCEval([i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> rows[i][IF k < j THEN k ELSE k + 1]]])))])

\* facets (as inward normals f with f . g >= 0 for every generator g, canonical scale, no duplicates) and
\* the orthogonal complement N of the span of the cone generated by the vectors in the sequence G of R^n
ConeFacets(G, n) ==
  LET N == NullBasis(G, n)
      k == n - Len(N)                 \* dimension of the cone
      subs == IF k = 0 THEN {} ELSE KSubs(k - 1, DOMAIN G)
      Signed(S) == LET rows == [i \in 1..(n - 1) |->
                          IF i <= Len(N) THEN N[i] ELSE G[SetToSortSeq(S, <)[i - Len(N)]]]
                       f == CrossN(rows, n)
                       d == TLCEval([i \in DOMAIN G |-> RSign(RDot(f, G[i]))])
                   IN IF IsZeroV(f) THEN <<>>
                      ELSE IF \A i \in DOMAIN G : d[i] >= 0 THEN Canon(f)
                      ELSE IF \A i \in DOMAIN G : d[i] <= 0 THEN Canon(VNeg(f)) ELSE <<>>
  IN [F |-> SetToSeq({Signed(S) : S \in subs} \ {<<>>}), N |-> N]

\* ---- polyhedra ----
HomV(v) == <<"1">> \o v
HomR(r) == <<"0">> \o r
Gens(V, Rays) == [i \in 1..(Len(V) + Len(Rays)) |-> IF i <= Len(V) THEN HomV(V[i]) ELSE HomR(Rays[i - Len(V)])]
\* exact face description of conv(V) + cone(Rays): inequalities F (f[1] + f[2..] . x >= 0) and equalities N
FaceDesc(V, Rays, d) == ConeFacets(Gens(V, Rays), d + 1)
\* exact generators of {x : A x <= b}: extreme points, extreme rays, lines (lineality space)
HomRow(a, b) == <<b>> \o VNeg(a)
GenDesc(A, b, d) ==
  LET rows == Append([i \in DOMAIN A |-> HomRow(A[i], b[i])], HomV(VZero(d)))
      cf == ConeFacets(rows, d + 1)
      tl(f) == SubSeq(f, 2, d + 1)
      pts == SelectSeq(cf.F, LAMBDA f : f[1] # "0")
      rys == SelectSeq(cf.F, LAMBDA f : f[1] = "0")
  IN [V |-> [i \in DOMAIN pts |-> VScale(RDiv("1", pts[i][1]), tl(pts[i]))],
      R |-> [i \in DOMAIN rys |-> tl(rys[i])],
      L |-> [i \in DOMAIN cf.N |-> tl(cf.N[i])]]   \* lines have t = 0

EvalF(f, x) == RAdd(f[1], RDot(SubSeq(f, 2, Len(f)), x))
FNorm2(f) == Norm2(SubSeq(f, 2, Len(f)))
InFaces(fd, x) == /\ \A i \in DOMAIN fd.F : RLe("0", EvalF(fd.F[i], x))
                  /\ \A i \in DOMAIN fd.N : EvalF(fd.N[i], x) = "0"
InHull(V, Rays, d, x) == InFaces(FaceDesc(V, Rays, d), x)
\* signed distance violation of one face: positive outside (rounded root, relative 1e-30)
FaceViol(f, x) == LET n2 == FNorm2(f) IN
  IF n2 = "0" THEN (IF RLt(f[1], "0") THEN "1" ELSE "-1") ELSE RDiv(RNeg(EvalF(f, x)), RSqrt(n2))
\* extreme points among V
ExtremePoints(V, d) ==
  {i \in DOMAIN V : /\ \A j \in DOMAIN V : j < i => V[j] # V[i]
                    /\ LET W == SelectSeq(V, LAMBDA v : v # V[i]) IN W = <<>> \/ ~InHull(W, <<>>, d, V[i])}
Extreme(V, d) == LET S == SetToSortSeq(ExtremePoints(V, d), <) IN [i \in DOMAIN S |-> V[S[i]]]
=============================================================================
