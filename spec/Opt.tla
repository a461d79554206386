-------------------------------- MODULE Opt --------------------------------
(* Optimal bounding and inscribed ellipsoids, support functions of the constrained sets, and closest     *)
(* points.  Optimality is decided by weak duality: the trace carries an untrusted dual certificate, which  *)
(* the specification checks exactly and turns into a bound no ellipsoid (pair of points, ...) can beat.    *)
EXTENDS Rnd

\* every shape is the convex hull of a union of ellipsoids {c + B u : |u| <= 1}; points have B = 0
Part(c, B) == [c |-> c, B |-> B]
ZeroB(d) == MZero(d, d)
PointPart(p) == Part(p, ZeroB(Len(p)))
ScaledCols(R, w) == MatMul(R, Diag(w))
Parts(s) ==
  CASE s.k = "poly" -> [i \in DOMAIN s.V |-> PointPart(s.V[i])]
    [] s.k = "box" -> LET V == BoxVertices(s) IN [i \in DOMAIN V |-> PointPart(V[i])]
    [] s.k = "ell" -> << Part(s.c, ScaledCols(s.R, s.he)) >>
    [] s.k = "cyl" -> LET p == Endpoints(s) IN [i \in 1..2 |-> Part(p[i], ScaledCols(s.R, <<s.r, s.r, "0">>))]
    [] s.k = "cap" -> LET p == Endpoints(s) IN [i \in 1..2 |-> Part(p[i], ScaledCols(s.R, <<s.r, s.r, s.r>>))]

\* sum of the principal minors of order r: the product of the r non-zero eigenvalues of a matrix of rank r
PDet(M, r) == IF r = 0 THEN "1"
              ELSE LET S == SetToSeq(KSubs(r, DOMAIN M)) IN
                   RSum([k \in DOMAIN S |-> LET ix == SetToSortSeq(S[k], <) IN Det([i \in 1..r |-> [j \in 1..r |-> M[ix[i]][ix[j]]]])])
\* normalised non-negative weights
WSum(w) == RSum(w)
WOk(w) == (\A i \in DOMAIN w : RIsNum(w[i]) /\ RLe("0", w[i])) /\ RLt("0", WSum(w))
WMean(pts, w) == LET d == Len(pts[1]) t == WSum(w) IN [k \in 1..d |-> RDiv(RSum([i \in DOMAIN pts |-> RMul(w[i], pts[i][k])]), t)]
\* weighted covariance of the points
WCov(pts, w) ==
  LET c == WMean(pts, w) t == WSum(w) n == Len(pts[1])
      D == TLCEval([i \in DOMAIN pts |-> VSub(pts[i], c)]) IN
  TLCEval([a \in 1..n |-> [b \in 1..n |-> RDiv(RSum([i \in DOMAIN pts |-> RMul(w[i], RMul(D[i][a], D[i][b]))]), t)]])

\* weak duality, enclosing: an ellipsoid which contains the points has squared half extents with product at least
\* r^r times the (pseudo-)determinant of any weighted covariance; a ball has squared radius at least its trace
EncloseBound(pts, w, r) == RMul(RPow(RInt(r), r), PDet(WCov(pts, w), r))
BallBound(pts, w) == Trace(WCov(pts, w))
\* weak duality, inscribed in {a_i . x <= b_i}: for multipliers l_i >= 0 and vectors |y_i| <= 1, with residual
\* delta = sum l_i a_i, beta = sum l_i b_i + max over the polytope of -delta . x, G = sym(sum l_i a_i y_i'):
\* product of half extents <= (beta / r)^r / pdet(G);  radius of a ball <= beta / sum l_i |a_i|
InscribeBeta(ct, V) ==
  LET d == Len(V[1])
      del == [k \in 1..d |-> RSum([i \in DOMAIN ct |-> RMul(ct[i].l, ct[i].a[k])])] IN
  RAdd(RSum([i \in DOMAIN ct |-> RMul(ct[i].l, ct[i].b)]), RMaxSeq([j \in DOMAIN V |-> RNeg(RDot(del, V[j]))]))
InscribeG(ct, d) == TLCEval([p \in 1..d |-> [q \in 1..d |->
    Half(RSum([i \in DOMAIN ct |-> RMul(ct[i].l, RAdd(RMul(ct[i].a[p], ct[i].y[q]), RMul(ct[i].a[q], ct[i].y[p])))]))]])
InscribeCertOk(ct, V) ==
  /\ \A i \in DOMAIN ct : RLe("0", ct[i].l) /\ RLe(Norm2(ct[i].y), "1") /\ \A j \in DOMAIN V : RLe(RDot(ct[i].a, V[j]), ct[i].b)
InscribeBound(ct, V, r) == RDiv(RPow(RDiv(InscribeBeta(ct, V), RInt(r)), r), PDet(InscribeG(ct, Len(V[1])), r))
InBallBound(ct, V) == RDiv(InscribeBeta(ct, V), RSum([i \in DOMAIN ct |-> RMul(ct[i].l, RSqrt(Norm2(ct[i].a)))]))

\* ---- the ellipsoid observed ----
EllOk(ob, d) == OIsVec(ob.half_extents, d) /\ OIsVec(ob.center, d) /\ IsOrthoObs(ob.rotation, d) /\ \A i \in 1..d : RLe("0", ob.half_extents.v[i])
NzIx(he) == SetToSortSeq({i \in DOMAIN he : ~RLe(he[i], "1/100000000")}, <)
ZIx(he) == SetToSortSeq({i \in DOMAIN he : RLe(he[i], "1/100000000")}, <)
\* the set c + B u in the coordinates of the ellipsoid (he, R, c0), scaled to the unit ball
GOf(B, he, R) == LET nz == NzIx(he) M == MatMul(Transp(R), B) IN TLCEval([k \in DOMAIN nz |-> VScale(RDiv("1", he[nz[k]]), M[nz[k]])])
WOf(c, he, R, c0) == LET nz == NzIx(he) y == MatVec(Transp(R), VSub(c, c0)) IN TLCEval([k \in DOMAIN nz |-> RDiv(y[nz[k]], he[nz[k]])])
\* {c + B u} lies in the ellipsoid enlarged to gauge^2 <= 1 + tol when, for some t >= 0, this matrix is positive semidefinite
InMatrix(G, w, t, tol, d) ==
  IF G = <<>> THEN << <<"0">> >>
  ELSE LET GG == MatMul(Transp(G), G) Gw == MatVec(Transp(G), w) IN
       TLCEval([i \in 1..(d + 1) |-> [j \in 1..(d + 1) |->
          IF i <= d /\ j <= d THEN RSub(IF i = j THEN t ELSE "0", GG[i][j])
          ELSE IF i <= d THEN RNeg(Gw[i]) ELSE IF j <= d THEN RNeg(Gw[j])
          ELSE RSub(RSub(RAdd("1", tol), t), Norm2(w))]])
\* flat directions: the part has no extent and no offset beyond a
FlatIn(P, he, R, c0, a) ==
  LET z == ZIx(he) M == MatMul(Transp(R), P.B) y == MatVec(Transp(R), VSub(P.c, c0)) IN
  \A k \in DOMAIN z : RLe(RAbs(y[z[k]]), a) /\ RLe(VMaxAbs(M[z[k]]), a)
PartIn(P, he, R, c0, t, tol, a) ==
  /\ FlatIn(P, he, R, c0, a)
  /\ LET d == Len(he) G == GOf(P.B, he, R) w == WOf(P.c, he, R, c0) IN
     IF MMaxAbs(P.B) = "0" THEN RLe(Norm2(w), RAdd("1", tol)) ELSE RLe("0", t) /\ IsPSD(InMatrix(G, w, t, tol, d))
ScaleParts(ps) == RMaxSeq([i \in DOMAIN ps |-> RAdd(VMaxAbs(ps[i].c), MMaxAbs(ps[i].B))])

\* ---- judging a bounding ellipsoid of the parts ps; tests whether certificate points belong to the target ----
OptTol == "1/1000"
EncloseClauses(ob, ps, sphere, d, rank, InTarget(_)) ==
  LET a == RMul(Eps5, ScaleParts(ps))
      \* bounding curved parts is a semidefinite program solved in world coordinates: accurate relative to those
      tolc == IF \A i \in DOMAIN ps : MMaxAbs(ps[i].B) = "0" THEN OptTol
              ELSE RMul(OptTol, RMax("1", RDiv(ScaleParts(ps), RMul("2", RMaxSeq([i \in DOMAIN ps |-> MMaxAbs(ps[i].B)]))))) IN
  IF ~EllOk(ob.ell, d) THEN {"the result is an ellipsoid"} ELSE
  LET he == ob.ell.half_extents.v R == ob.ell.rotation.v c0 == ob.ell.center.v
      nz == NzIx(he) hz == [k \in DOMAIN nz |-> he[nz[k]]] r == Len(nz)
      \* a sphere around a flat target may be flat like the target or full
      full == sphere /\ r = d
  IN Must(r = rank \/ full, "dimension of the bounding ellipsoid")
     \cup Must(Len(ob.ts) = Len(ps) /\ \A i \in DOMAIN ps : PartIn(ps[i], he, R, c0, ob.ts[i], tolc, a), "does not contain what it bounds")
     \cup Must(sphere => \A k \in DOMAIN hz : NearT(hz[k], hz[1], RMul(OptTol, hz[1])), "is not a sphere")
     \cup (IF ob.cert = <<>> \/ ~(r = rank \/ full) THEN {} ELSE
           LET pts == ob.cert.pts w == ob.cert.w IN
           IF ~(WOk(w) /\ \A i \in DOMAIN pts : InTarget(pts[i])) THEN {"certificate is not about the target"}
           ELSE IF sphere THEN Must(RLe(Sq(hz[1]), RMul(RAdd("1", OptTol), BallBound(pts, w))), "is not the smallest enclosing sphere")
           ELSE Must(RLe(Sq(RProd(hz)), RMul(RAdd("1", RMul(RInt(2 * d), OptTol)), EncloseBound(pts, w, r))), "is not the smallest enclosing ellipsoid"))
\* the dimension of the affine hull of the parts
PartsRank(ps, d) == RankOf([i \in DOMAIN ps |-> VSub(ps[i].c, ps[1].c)] \o FoldSeq(LAMBDA P, acc : acc \o Transp(P.B), <<>>, ps), d)
EncloseShape(ob, s, sphere) ==
  LET d == DimOf(s) t == RMul(Eps7, ShapeScale(s)) IN
  \* the bounding ellipsoid of an ellipsoid may be itself, flat or not
  EncloseClauses(ob, Parts(s), sphere, d, PartsRank(Parts(s), d), LAMBDA p : MustAccept(s, p, RMul("3", RMul(PolyFactor(s), RMax(t, Eps7))), "0"))

\* ---- judging an inscribed ellipsoid of the polytope s ----
InscribeClauses(ob, s, sphere) ==
  LET d == s.d V == s.V fd == s.fd sc == ShapeScale(s) a == RMul(Eps5, sc) rank == d - Len(fd.N) IN
  IF ~EllOk(ob.ell, d) THEN {"the result is an ellipsoid"} ELSE
  LET he == ob.ell.half_extents.v R == ob.ell.rotation.v c0 == ob.ell.center.v
      nz == NzIx(he) hz == [k \in DOMAIN nz |-> he[nz[k]]] r == Len(nz)
      B == ScaledCols(R, he)
      width(n) == RSqrt(Norm2(MatVec(Transp(B), n)))
      norm(f) == SubSeq(f, 2, d + 1)
  IN Must(r = rank, "dimension of the inscribed ellipsoid")
     \cup Must(/\ \A i \in DOMAIN fd.F : LET n == norm(fd.F[i]) IN
                    RLe(width(n), RAdd(EvalF(fd.F[i], c0), RMul(RMul(OptTol, sc), RSqrt(Norm2(n)))))
               /\ \A i \in DOMAIN fd.N : LET n == norm(fd.N[i]) IN
                    RLe(RAdd(width(n), RAbs(EvalF(fd.N[i], c0))), RMul(a, RAdd("1", RSqrt(Norm2(n))))),
               "does not lie inside")
     \cup Must(sphere => \A k \in DOMAIN hz : NearT(hz[k], hz[1], RMul(OptTol, hz[1])), "is not a sphere")
     \cup (IF ob.cert = <<>> \/ r # rank THEN {} ELSE
           IF ~InscribeCertOk(ob.cert, V) THEN {"certificate is not about the target"}
           ELSE IF sphere THEN Must(RLe(InBallBound(ob.cert, V), RMul(RAdd("1", RMul("4", OptTol)), hz[1])), "is not the largest inscribed sphere")
           ELSE Must(RLe(InscribeBound(ob.cert, V, r), RMul(RAdd("1", RMul(RInt(4 * d), OptTol)), RProd(hz))), "is not the largest inscribed ellipsoid"))

\* ---- is ellipsoid x inside ellipsoid s?  Decided inside by an S-lemma multiplier with margin, outside by a point ----
Margin == "1/1000"
EllInYes(s, x, t) == RLe("0", t) /\ IsPSD(InMatrix(GOf(ScaledCols(x.R, x.he), s.he, s.R), WOf(x.c, s.he, s.R, s.c), t, RNeg(Margin), Len(s.he)))
EllInNo(s, x, p) == Member(x, p) /\ RLt(RAdd("1", Margin), EllGauge(s.he, LocalC(s, p)))

\* a degenerate matrix inequality ([[0, y], [y, 1]] >= -eps) pins y down only to the square root of the solver's accuracy
FlatFac(s) == IF s.k = "poly" THEN "1"
              ELSE IF (s.k \in {"box", "ell"} /\ \E i \in DOMAIN s.he : s.he[i] = "0") \/ (s.k \in {"cyl", "cap"} /\ (s.L = "0" \/ s.r = "0")) THEN "30" ELSE "1"
\* ---- constraints: maximum of a linear function over the constrained set, which is scale * s ----
SupTol(s, n) == RMul(RMul(FlatFac(s), "1/100000"), RMul(RAdd(ShapeScale(s), "1/10"), RSqrt(Norm2(n))))
\* the point q divided by the scale is in the set up to t
InScaled(s, q, sc, t) ==
  IF sc = "0" THEN RLe(VMaxAbs(q), t) ELSE ~MustReject(s, VScale(RDiv("1", sc), q), RDiv(t, sc), "0")
\* support value of the set scaled by anything in [lo, hi]
ScaledSup(s, n, lo, hi) == LET h == Support(s, n) IN IF RLe("0", h) THEN RMul(hi, h) ELSE RMul(lo, h)

OptOps == {"opt.mbe", "opt.mie", "opt.ellin", "opt.support", "opt.closest"}
OptStep(hp, e) ==
  IF e.exc # "" THEN Res(hp, {"raised " \o e.exc}) ELSE
  CASE e.op = "opt.mbe" ->
         LET sphere == Arg(e, "sphere", FALSE) IN
         NoExc(e, Res(IF "id" \in DOMAIN e THEN Put(hp, e.id, [k |-> "opaque"]) ELSE hp,
           CASE e.src = "shape" -> EncloseShape(e.o, hp[e.of], sphere)
             [] e.src = "points" -> LET d == Len(e.pts[1]) ps == [i \in DOMAIN e.pts |-> PointPart(e.pts[i])] IN
                  EncloseClauses(e.o, ps, sphere, d, PartsRank(ps, d), LAMBDA p : \E i \in DOMAIN e.pts : p = e.pts[i])
             [] e.src = "ells" -> LET ps == [i \in DOMAIN e.xs |-> Parts(hp[e.xs[i]])[1]] d == Len(ps[1].c) IN
                  EncloseClauses(e.o, ps, sphere, d, PartsRank(ps, d),
                     LAMBDA p : \E i \in DOMAIN e.xs : MustAccept(hp[e.xs[i]], p, RMul("3", RMul(Eps7, RMax("1", ScaleParts(ps)))), "0"))
             [] e.src = "body" -> LET b == hp[e.of] IN
                  Must(Len(e.o.ells) = Len(b.shapes), "one bounding ellipsoid for each shape of the body")
                  \cup (IF Len(e.o.ells) # Len(b.shapes) THEN {} ELSE
                        UNION {EncloseShape(e.o.ells[i], b.shapes[i], sphere) : i \in DOMAIN b.shapes})
                  \cup ReadClauses(b.par, e.o.params)))
    [] e.op = "opt.mie" -> ReadOnly(e, hp, InscribeClauses(e.o, AsPoly(hp[e.of]), Arg(e, "sphere", FALSE)))
    [] e.op = "opt.ellin" ->
         LET s == hp[e.of] x == hp[e.x]
             yes == EllInYes(s, x, e.o.mult)
             no == \E i \in DOMAIN e.o.wit : EllInNo(s, x, e.o.wit[i]) IN
         Res(hp, Must(e.o.ans.t = "bool" \/ (e.o.ans.t = "none" /\ ~yes), "answer is a truth value")
           \cup (IF e.o.ans.t = "bool" /\ yes THEN Must(e.o.ans.v, "an inner ellipsoid reported not inside") ELSE {})
           \cup (IF e.o.ans.t = "bool" /\ no THEN Must(~e.o.ans.v, "a protruding ellipsoid reported inside") ELSE {}))
    \* maximise sum_i n_i . p_i subject to the constraints for the points p_i with scale in [lo, hi]
    [] e.op = "opt.support" ->
         LET s == hp[e.of] lo == Arg(e, "lo", "1") hi == Arg(e, "hi", lo) IN
         ReadOnly(e, hp, Must(e.o.status.v = "optimal", "the constraints are feasible")
           \cup (IF e.o.status.v # "optimal" THEN {} ELSE
               LET n == Len(e.dirs)
                   okp == OIsMat(e.o.pts, n, DimOf(s)) /\ OIsNum(e.o.scale)
                   hmax == RMax(hi, "1/100")
               IN Must(okp, "points satisfying the constraints")
               \cup (IF ~okp THEN {} ELSE
                   Must(\A i \in 1..n : InScaled(s, e.o.pts.v[i], e.o.scale.v, RMul(hmax, RMul(RMul(FlatFac(s), Eps5), RAdd(ShapeScale(s), "1/10")))), "a point outside the shape satisfies the constraints")
                   \cup Must(\A i \in 1..n : LET v == RDot(e.dirs[i], e.o.pts.v[i]) t == RMul(hmax, SupTol(s, e.dirs[i])) IN
                               \* with a common free scale only the sum is determined
                               (lo = hi => RLe(RSub(ScaledSup(s, e.dirs[i], lo, hi), t), v)) /\ RLe(v, RAdd(ScaledSup(s, e.dirs[i], lo, hi), t)), "support value")
                   \cup (IF lo = hi \/ n > 1 THEN {} ELSE
                         Must(LET v == RDot(e.dirs[1], e.o.pts.v[1]) t == RMul(hmax, SupTol(s, e.dirs[1])) IN
                              RLe(RSub(ScaledSup(s, e.dirs[1], lo, hi), t), v), "support value over the scales")))))
    [] e.op = "opt.closest" ->
         LET a == hp[e.x] b == hp[e.y] sc == RAdd(RMax(ShapeScale(a), ShapeScale(b)), "1/10")
             ff == RMax(FlatFac(a), FlatFac(b)) t == RMul(RMul("1/20000", sc), IF ff = "1" THEN "1" ELSE "6")
             pt == RMul(RMul(ff, RMul("3", Eps5)), sc) IN
         ReadOnly(e, hp, IF ~(OIsVec(e.o.p1, 3) /\ OIsVec(e.o.p2, 3) /\ OIsNum(e.o.dist)) THEN {"points and distance"} ELSE
           LET p == e.o.p1.v q == e.o.p2.v dd == e.o.dist.v g == VSub(q, p) len == RSqrt(Norm2(g)) IN
              Must(~MustReject(a, p, Eps5, pt), "first point outside the first shape")
              \cup Must(~MustReject(b, q, Eps5, pt), "second point outside the second shape")
              \cup Must(NearT(dd, len, t), "distance is not that of the points")
              \* no two points are closer than the gap between the supporting planes with normal g
              \cup (IF RLe(len, RMul("1/500", sc)) THEN {}
                    ELSE Must(RLe(RSub(dd, RMul("8", t)), RDiv(RSub(RNeg(Support(b, VNeg(g))), Support(a, g)), len)), "closer points exist"))
              \* known points of both shapes
              \cup (IF "wit" \notin DOMAIN e THEN {} ELSE
                    IF Member(a, e.wit[1]) /\ Member(b, e.wit[2])
                    THEN Must(RLe(dd, RAdd(RSqrt(Norm2(VSub(e.wit[1], e.wit[2]))), t)), "a closer pair of points is known") ELSE {}))
=============================================================================
