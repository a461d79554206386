---------------------------------- MODULE Dd ----------------------------------
(* Double description: span forms, face forms and intersections as exact sets.                            *)
(* A polyhedral set in the heap is [k |-> "pset", d, empty, V, R, L, fd]: minimal generators (extreme      *)
(* points, extreme rays, lines; the points and rays modulo the lines) and facets fd (F: f[1] + f[2..].x    *)
(* >= 0, N: equalities).  rep tells whether the object is a span or a face form.                            *)
EXTENDS Dyn

\* generators of {x : f[1] + f[2..].x >= 0 for all rows f}
GenOfRows(rows, d) ==
  LET cf == ConeFacets(Append(rows, HomV(VZero(d))), d + 1)
      tl(f) == SubSeq(f, 2, d + 1)
      pts == SelectSeq(cf.F, LAMBDA f : f[1] # "0")
      rys == SelectSeq(cf.F, LAMBDA f : f[1] = "0")
  IN TLCEval([V |-> [i \in DOMAIN pts |-> VScale(RDiv("1", pts[i][1]), tl(pts[i]))],
              R |-> [i \in DOMAIN rys |-> tl(rys[i])],
              L |-> [i \in DOMAIN cf.N |-> tl(cf.N[i])]])
RowsOfFd(fd) == fd.F \o fd.N \o [i \in DOMAIN fd.N |-> VNeg(fd.N[i])]
PlusMinus(L) == L \o [i \in DOMAIN L |-> VNeg(L[i])]
SetOfRows(rows, d, rep) ==
  LET g == GenOfRows(rows, d) IN
  [k |-> "pset", d |-> d, rep |-> rep, empty |-> g.V = <<>>, V |-> g.V, R |-> g.R, L |-> g.L,
   fd |-> IF g.V = <<>> THEN [F |-> <<>>, N |-> <<>>] ELSE FaceDesc(g.V, g.R \o PlusMinus(g.L), d)]
\* a span form: rays only means a cone with its apex at the origin
SpanPts(V, R, d) == IF V = <<>> /\ R # <<>> THEN <<VZero(d)>> ELSE V
SetOfSpan(V, R, d, rep) ==
  SetOfRows(RowsOfFd(FaceDesc(SpanPts(V, R, d), SelectSeq(R, LAMBDA r : ~IsZeroV(r)), d)), d, rep)
SetOfFaces(A, b, Ae, be, d, rep) ==
  SetOfRows([i \in DOMAIN A |-> HomRow(A[i], b[i])] \o [i \in DOMAIN Ae |-> HomRow(Ae[i], be[i])]
            \o [i \in DOMAIN Ae |-> VNeg(HomRow(Ae[i], be[i]))], d, rep)

RayIn(fd, r) == /\ \A i \in DOMAIN fd.F : RLe("0", RDot(SubSeq(fd.F[i], 2, Len(fd.F[i])), r))
                /\ \A i \in DOMAIN fd.N : RDot(SubSeq(fd.N[i], 2, Len(fd.N[i])), r) = "0"
\* every generator of the set o satisfies the facets fd
GensIn(V, R, fd) == (\A i \in DOMAIN V : InFaces(fd, V[i])) /\ (\A i \in DOMAIN R : RayIn(fd, R[i]))
AllRays(o) == o.R \o PlusMinus(o.L)
SameSetP(a, b) == a.d = b.d /\ a.empty = b.empty /\
                  (~a.empty => GensIn(a.V, AllRays(a), b.fd) /\ GensIn(b.V, AllRays(b), a.fd))
Member2(o, x) == ~o.empty /\ InFaces(o.fd, x)
PMove(o, R, t) ==
  IF o.empty THEN o
  ELSE SetOfSpan([i \in DOMAIN o.V |-> VAdd(MatVec(R, o.V[i]), t)], [i \in DOMAIN AllRays(o) |-> MatVec(R, AllRays(o)[i])], o.d, o.rep)
PBounded(o) == o.R = <<>> /\ o.L = <<>>
\* closed under scaling by every positive factor: every facet passes through the origin (the trivial facet 1 >= 0
\* of an unbounded set does not bound it)
NonTrivial(f) == \E i \in 2..Len(f) : f[i] # "0"
PCone(o) == /\ \A i \in DOMAIN o.fd.F : (\E j \in DOMAIN o.V : EvalF(o.fd.F[i], o.V[j]) = "0") => EvalF(o.fd.F[i], VZero(o.d)) = "0"
            /\ \A i \in DOMAIN o.fd.N : o.fd.N[i][1] = "0"
PMeet(a, b) == IF a.empty \/ b.empty THEN [a EXCEPT !.empty = TRUE, !.V = <<>>, !.R = <<>>, !.L = <<>>]
               ELSE SetOfRows(RowsOfFd(a.fd) \o RowsOfFd(b.fd), a.d, a.rep)

\* ---- observed forms.  The harness records every row with its simplest rational close by (q); rows of rays and
\* faces are recorded up to a positive factor.  The specification checks that these are the recorded numbers.
CloseRow(x, q, k) == LET s == RMax("1", VMaxAbs(x)) IN Len(x) = Len(q) /\ VNearT(x, VScale(k, q), RMul(Eps9, s))
ScaleOf(x) == LET m == VMaxAbs(x) IN IF m = "0" THEN "1" ELSE m
ObsRows(o, n) == IF o.t = "none" THEN TRUE ELSE o.t = "mat" /\ Len(o.sh) = 2 /\ o.sh[2] = n /\ MIsNum(o.v)
RowsIn(o) == IF o.t = "none" THEN <<>> ELSE o.v
SpanReadable(ob, d) ==
  /\ ObsRows(ob.V, d) /\ ObsRows(ob.R, d)
  /\ Len(ob.Vq) = Len(RowsIn(ob.V)) /\ Len(ob.Rq) = Len(RowsIn(ob.R))
  /\ \A i \in DOMAIN ob.Vq : CloseRow(RowsIn(ob.V)[i], ob.Vq[i], "1")
  /\ \A i \in DOMAIN ob.Rq : CloseRow(RowsIn(ob.R)[i], ob.Rq[i], ScaleOf(RowsIn(ob.R)[i]))
FaceReadable(ob, d) ==
  /\ ob.A.t = "mat" /\ ob.A.sh[2] = d /\ MIsNum(ob.A.v) /\ OIsVec(ob.b, Len(ob.A.v))
  /\ Len(ob.q) = Len(ob.A.v)
  /\ \A i \in DOMAIN ob.q : LET r == HomRow(ob.A.v[i], ob.b.v[i]) IN CloseRow(r, ob.q[i], ScaleOf(r))

SpanReadClauses(o, ob, canon) ==
  IF ob.rep.v = "none" THEN Must(o.empty, "a non-empty set has a span form")
  ELSE IF o.empty THEN {"an empty set has no span form"}
  ELSE IF ~SpanReadable(ob, o.d) THEN {"span form readable"}
  ELSE LET R == SelectSeq(ob.Rq, LAMBDA r : ~IsZeroV(r))
           V == SpanPts(ob.Vq, R, o.d) IN
    IF V = <<>> THEN {"span form of a non-empty set has generators"}
    ELSE LET fd == FaceDesc(V, R, o.d) IN
       Must(GensIn(V, R, o.fd), "generators belong to the set")
    \cup Must(GensIn(o.V, AllRays(o), fd), "the whole set is spanned")
    \cup Must(OBool(ob.bounded, PBounded(o)), "boundedness")
    \cup Must(OBool(ob.is_cone, PCone(o)), "cone query")
    \cup Must(ob.nv.v = RInt(Len(RowsIn(ob.V))) /\ ob.nr.v = RInt(Len(RowsIn(ob.R))) /\ ob.dim.v = RInt(o.d), "counts")
    \cup (IF ~canon THEN {} ELSE
           Must(Len(ob.Vq) = Len(o.V) \/ (ob.Vq = <<>> /\ o.V = <<VZero(o.d)>>) \/ (ob.Vq = <<>> /\ Len(o.V) = 1 /\ PCone(o)), "exactly the extreme points")
           \cup Must(Len(ob.Rq) = Len(o.R) + 2 * Len(o.L), "no redundant ray"))
\* a true facet contains a point of the set; the trivial one (1 >= 0, modulo the equalities) contains rays only
TouchesSet(f, o) == \E i \in DOMAIN o.V : EvalF(f, o.V[i]) = "0"
\* facets of a set, not counting the trivial one, and its equalities twice
FacetCount(o) == Cardinality({i \in DOMAIN o.fd.F : TouchesSet(o.fd.F[i], o)}) + 2 * Len(o.fd.N)
FaceReadClauses(o, ob, canon) ==
  IF ~FaceReadable(ob, o.d) THEN {"face form readable"}
  ELSE LET g == GenOfRows(ob.q, o.d) IN
    IF o.empty \/ g.V = <<>> THEN Must(o.empty /\ g.V = <<>>, "face form empty exactly when the set is")
    ELSE Must(GensIn(g.V, g.R \o PlusMinus(g.L), o.fd), "face form describes nothing outside the set")
    \cup Must(\A i \in DOMAIN ob.q : (\A j \in DOMAIN o.V : RLe("0", EvalF(ob.q[i], o.V[j])))
                                  /\ (\A j \in DOMAIN AllRays(o) : RLe("0", RDot(SubSeq(ob.q[i], 2, o.d + 1), AllRays(o)[j]))), "faces valid on the set")
    \cup Must(ob.nf.v = RInt(Len(ob.q)) /\ ob.dim.v = RInt(o.d), "counts")
    \cup (IF canon THEN Must(Cardinality({i \in DOMAIN ob.q : NonTrivial(ob.q[i])}) = FacetCount(o), "no redundant face") ELSE {})
PReadClauses(o, ob, canon) ==
  IF ob.rep.v = "face" THEN FaceReadClauses(o, ob, canon) ELSE SpanReadClauses(o, ob, canon)

\* ---- convex hull of points: the extreme points, once each ----
HullClauses(e) ==
  LET d == Len(e.pts[1]) x == Extreme(e.pts, d) t == RMul("1/100000000", RMax("1", MMaxAbs(e.pts))) IN
  Must(SamePointBag(e.o.r, x, t), "convex hull is the list of extreme points")

\* ---- intersections of bounded polyhedra ----
IsP(o) == o.k \in {"poly", "box"}
\* the facets of a, relaxed outwards by dl (equalities become slabs); a negative dl shrinks
RelaxRows(fd, dl) ==
  LET n(f) == RSqrt(FNorm2(f)) IN
  [i \in DOMAIN fd.F |-> [fd.F[i] EXCEPT ![1] = RAdd(@, RMul(dl, n(fd.F[i])))]]
  \o [i \in DOMAIN fd.N |-> [fd.N[i] EXCEPT ![1] = RAdd(@, RMul(dl, n(fd.N[i])))]]
  \o [i \in DOMAIN fd.N |-> [VNeg(fd.N[i]) EXCEPT ![1] = RAdd(@, RMul(dl, n(fd.N[i])))]]
MaxViolIn(fd, x) == RMaxSeq([i \in DOMAIN fd.F |-> FaceViol(fd.F[i], x)] \o [i \in DOMAIN fd.N |-> RAbs(FaceViol(fd.N[i], x))])
RowViol(f, x) == FaceViol(f, x)
MeetRows(a, b) == RowsOfFd(a.fd) \o RowsOfFd(b.fd)
MeetGens(a, b) == GenOfRows(MeetRows(a, b), a.d).V
\* every vertex lies on exactly d of the facets of the operands, so that rounding cannot split it
Simple(V, rows, d) == \A i \in DOMAIN V : Cardinality({j \in DOMAIN rows : EvalF(rows[j], V[i]) = "0"}) = d
Apart(V, t) == \A i, j \in DOMAIN V : i < j => RLt(t, VMaxAbs(VSub(V[i], V[j])))
NoneObj == [k |-> "none"]
MeetStep(hp, e) ==
  LET x == hp[e.x] y == hp[e.y] IN
  IF ~IsP(x) \/ ~IsP(y) THEN Res(Put(hp, e.id, NoneObj), {})
  ELSE LET a == AsPoly(x) b == AsPoly(y)
           s == RMax("1", RMax(ShapeScale(a), ShapeScale(b)))
           V == MeetGens(a, b)
           nobj == IF V = <<>> THEN NoneObj ELSE MkPoly(V, a.d)
           t7 == RMul(Eps7, s) dl == RMul(Eps5, s)
           none == e.o.res.v = "none"
           ob == e.o.vertices
           readable == OIsPts(ob, a.d)
       IN NoExc(e, IF e.exc # "" THEN Res(Put(hp, e.id, nobj), {}) ELSE Res(Put(hp, e.id, nobj),
            IF Arg(e, "exact", FALSE) THEN
               IF V = <<>> THEN Must(none, "disjoint polyhedra have no intersection")
               ELSE IF none THEN {"intersecting polyhedra reported disjoint"}
               ELSE Must(SamePointBag(ob, V, t7), "vertices of the intersection are its extreme points")
            ELSE IF none THEN
               Must(~(a.fd.N = <<>> /\ b.fd.N = <<>> /\
                      GenOfRows(RelaxRows(a.fd, RNeg(dl)) \o RelaxRows(b.fd, RNeg(dl)), a.d).V # <<>>), "intersecting polyhedra reported disjoint")
            ELSE IF ~readable \/ Len(ob.v) = 0 THEN {"vertices of the intersection"}
            ELSE IF V = <<>> THEN
               Must(GenOfRows(RelaxRows(a.fd, dl) \o RelaxRows(b.fd, dl), a.d).V # <<>>, "disjoint polyhedra have no intersection")
            ELSE Must(\A i \in DOMAIN ob.v : RLe(MaxViolIn(a.fd, ob.v[i]), dl) /\ RLe(MaxViolIn(b.fd, ob.v[i]), dl), "intersection inside both operands")
              \cup (IF a.fd.N = <<>> /\ b.fd.N = <<>> THEN
                     LET W == GenOfRows(RelaxRows(a.fd, RNeg(dl)) \o RelaxRows(b.fd, RNeg(dl)), a.d).V IN
                     IF W = <<>> THEN {} ELSE
                     Must(Len(ob.v) > a.d /\ \A i \in DOMAIN W : LET h == FaceDesc(ob.v, <<>>, a.d) IN RLe(MaxViolIn(h, W[i]), dl), "intersection misses common points")
                     \cup (IF Simple(V, MeetRows(a, b), a.d) /\ Apart(V, RMul("100", dl))
                           THEN Must(SamePointBag(ob, V, dl), "vertices of the intersection are its extreme points") ELSE {})
                   ELSE {})))

DdOps == {"pf.span", "pf.face", "pf.toface", "pf.tospan", "pf.canon", "pf.move", "pf.stack", "pf.read", "pf.hull", "poly.from", "poly.intersect"}
DdStep(hp, e) ==
  CASE e.op = "pf.span" -> NoExc(e, Res(Put(hp, e.id, SetOfSpan(Arg(e, "V", <<>>), Arg(e, "R", <<>>) \o PlusMinus(Arg(e, "L", <<>>)), e.d, "span")), {}))
    [] e.op = "pf.face" -> NoExc(e, Res(Put(hp, e.id, SetOfFaces(e.A, e.b, Arg(e, "Ae", <<>>), Arg(e, "be", <<>>), e.d, "face")), {}))
    [] e.op = "pf.toface" -> NoExc(e, Res(Put(hp, e.id, [hp[e.of] EXCEPT !.rep = "face"]), {}))
    [] e.op = "pf.tospan" -> NoExc(e, Res(Put(hp, e.id, [hp[e.of] EXCEPT !.rep = "span"]), {}))
    [] e.op = "pf.canon" -> NoExc(e, Res(Put(hp, e.id, hp[e.of]), {}))
    [] e.op = "pf.move" -> NoExc(e, Res(Put(hp, e.id, PMove(hp[e.of], RotArg(e, hp[e.of].d), VecArg(e, "t", hp[e.of].d))), {}))
    [] e.op = "pf.stack" -> NoExc(e, Res(Put(hp, e.id, PMeet(hp[e.x], hp[e.y])), {}))
    [] e.op = "pf.read" -> NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, PReadClauses(hp[e.of], e.o, Arg(e, "canon", FALSE))))
    [] e.op = "pf.hull" -> NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, HullClauses(e)))
    [] e.op = "poly.from" ->
         LET o == hp[e.of] IN
         IF o.empty THEN Refused(e, Put(hp, e.id, NoneObj))
         ELSE IF ~PBounded(o) THEN Refused(e, Put(hp, e.id, NoneObj))
         ELSE NoExc(e, Res(Put(hp, e.id, MkPoly(o.V, o.d)), {}))
    [] e.op = "poly.intersect" -> MeetStep(hp, e)
=============================================================================
