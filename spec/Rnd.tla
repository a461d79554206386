---------------------------------- MODULE Rnd ----------------------------------
(* Random sampling: membership of samples, reproducibility of random sources, the rejection sampler as a   *)
(* state machine, the distributions of the uniform samplers, and grids.                                     *)
EXTENDS Dd

\* ------------------------------------------------------------------ C18: samples belong to their target
\* every defining condition holds up to the distance t
Inside(s, p, t) == LET V == Viol(s, p) IN \A i \in DOMAIN V : RLe(V[i][2], t)
BoxTight(s, p, t) == LET y == LocalC(s, p) IN Cardinality({i \in 1..3 : RLe(RAbs(RSub(RAbs(y[i]), s.he[i])), t)})
OnSurf(s, p, t) ==
  /\ Inside(s, p, t)
  /\ IF s.k = "box" THEN BoxTight(s, p, t) >= 1
     ELSE RLe(RAbs(RSub(EllGauge(s.he, LocalC(s, p)), "1")), RDiv(RMul("8", t), RMinSeq(s.he)))
OnEdge(s, p, t) == Inside(s, p, t) /\ BoxTight(s, p, t) >= 2
Target(e, s, p, t) == CASE e.f = "points" -> Inside(s, p, t) [] e.f = "surface" -> OnSurf(s, p, t) [] e.f = "edges" -> OnEdge(s, p, t)
\* the array has the requested shape; a single point may come without the leading axis
ArrShape(e, sh, d) ==
  IF e.shape = <<1>> THEN sh = <<d>> \/ (~Arg(e, "scalar", FALSE) /\ sh = <<1, d>>) ELSE sh = e.shape \o <<d>>
RECURSIVE ProdI(_)
ProdI(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdI(Tail(s))
SampleRefused(e, s) ==     \* nothing to sample: no surface, no edges
  \/ e.f = "surface" /\ s.k = "ell" /\ \E i \in DOMAIN s.he : s.he[i] = "0"
SampleDim(hp, e) == CASE e.f \in {"points", "surface", "edges"} -> DimOf(hp[e.of]) [] e.f = "hypersphere" -> e.dim + 1 [] OTHER -> e.dim
SampleClauses(hp, e) ==
  LET ob == e.o d == SampleDim(hp, e) n == ProdI(e.shape) IN
  IF ~(ArrShape(e, ob.sh, d)) THEN {"requested array shape"}
  ELSE IF n = 0 THEN {}
  ELSE IF ~(OIsPts(ob.pts, d) /\ Len(ob.pts.v) = n) THEN {"points are numbers"}
  ELSE IF e.f = "hypersphere" THEN Must(\A i \in 1..n : NearT(Norm2(ob.pts.v[i]), "1", Eps9), "points on the sphere")
  ELSE IF e.f = "ball" THEN Must(\A i \in 1..n : RLe(Norm2(ob.pts.v[i]), RAdd("1", Eps9)), "points in the ball")
  ELSE LET s == hp[e.of]
           t == IF s.k = "cap" THEN RMul(Eps7, RMax("1", ShapeScale(s))) ELSE RMul("8", Tol(ShapeScale(s))) IN
       Must(\A i \in 1..n : Target(e, s, ob.pts.v[i], t), "every sample belongs to its target")
WeightClauses(e) ==
  LET ob == e.o IN
  IF ~(ob.sh = e.shape) THEN {"requested array shape"}
  ELSE Must(ob.pts.t = "mat" /\ MIsNum(ob.pts.v) /\ \A i \in DOMAIN ob.pts.v :
              (\A j \in DOMAIN ob.pts.v[i] : RLe("0", ob.pts.v[i][j])) /\ NearT(RSum(ob.pts.v[i]), "1", Eps9), "weights are non-negative and sum to one")
PsdClauses(e) ==
  LET ob == e.o n == e.n IN
  Must(OIsMat(ob.r, n, n) /\ MNearT(ob.r.v, Transp(ob.r.v), Eps9) /\
       IsPSD(MAdd(MScale("1/2", MAdd(ob.r.v, Transp(ob.r.v))), MScale("1/10000000000", Eye(n)))), "positive semidefinite matrix")

\* ------------------------------------------------------------------ C19: sources of randomness
\* A generator object is [k |-> "gen", seed, hist]: everything drawn from it so far.  The heap also holds the memo of
\* all calls made: [key, call, dig, after].  A call's key is what its result may depend on: the seed, the generator's
\* seed and history, or (unseeded) nothing reproducible.
Memo(hp) == IF "memo" \in DOMAIN hp THEN hp["memo"] ELSE {}
CallKey(hp, e) == CASE e.src = "seed" -> <<"seed", e.seed>> [] e.src = "gen" -> <<"gen", hp[e.gen].seed, hp[e.gen].hist>> [] OTHER -> <<"none", Cardinality(Memo(hp))>>
AfterCall(hp, e, key) ==
  LET m == [key |-> key, call |-> e.call, dig |-> e.o.dig, after |-> IF e.src = "gen" THEN e.o.st1 ELSE ""]
      h2 == Put(hp, "memo", Memo(hp) \cup {m}) IN
  IF e.src = "gen" THEN Put(h2, e.gen, [hp[e.gen] EXCEPT !.hist = Append(@, e.call)]) ELSE h2
CallClauses(hp, e, key) ==
  LET M == Memo(hp) ob == e.o
      same == {m \in M : m.call = e.call /\ m.key = key}
      \* an unseeded call, or one from another seed or another point of a generator's history, gives something else
      \* (an integer seed and a fresh generator with that seed are not compared)
      diff == {m \in M : m.call = e.call /\ m.key # key /\ ~(m.key[1] # key[1] /\ m.key[1] # "none" /\ key[1] # "none")} IN
     Must(ob.gs0 = ob.gs1, "NumPy's global random state is left alone")
  \cup Must(\A m \in same : m.dig = ob.dig, "the same seed or generator state gives the same result")
  \cup Must(\A m \in diff : m.dig # ob.dig, "another seed, generator state or no seed gives another result")
  \cup (IF e.src = "gen" THEN Must(ob.st1 # ob.st0, "the generator advances")
                           \cup Must(\A m \in same : m.after = ob.st1, "the generator's next state is determined")
        ELSE {})

\* ------------------------------------------------------------------ C20: the rejection sampler
\* State: rounds used, candidates drawn, requests made, accepted candidates (by index of drawing).
RejInit == [tries |-> 0, drawn |-> 0, reqs |-> <<>>, got |-> <<>>]
RejDone(st, n) == Len(st.got) >= n
RejFail(st, n, max) == ~RejDone(st, n) /\ st.tries >= max
\* one round; ok(i) tells whether the i-th candidate drawn lies in one of the target shapes
RejRound(st, n, ok(_)) ==
  LET r == n - Len(st.got) IN
  [tries |-> st.tries + 1, drawn |-> st.drawn + r, reqs |-> Append(st.reqs, r),
   got |-> st.got \o SelectSeq([i \in 1..r |-> st.drawn + i], ok)]
RECURSIVE RejRun(_, _, _, _)
RejRun(st, n, max, acc) ==
  IF RejDone(st, n) \/ RejFail(st, n, max) THEN st
  ELSE RejRun(RejRound(st, n, LAMBDA i : acc[((i - 1) % Len(acc)) + 1]), n, max, acc)
RejClauses(e, acc) ==
  LET n == ProdI(e.shape) st == RejRun(RejInit, n, e.max, acc) ob == e.o IN
  IF RejDone(st, n) THEN
     IF e.exc # "" THEN {"raised although enough points were accepted: " \o e.exc}
     ELSE Must(ob.reqs = st.reqs, "requests what is still missing, round by round")
       \cup Must(ob.sh = e.shape \o <<3>> \/ (e.shape = <<1>> /\ ob.sh = <<3>>), "requested array shape")
       \cup Must(ob.idx = st.got, "exactly the accepted candidates in the order drawn")
  ELSE Must(e.exc # "", "no error although the rounds are used up")
       \cup Must(ob.reqs = st.reqs, "uses exactly the allowed rounds")
\* candidates recorded from a real bounding shape; unclear: closer to a boundary than the tolerance decides
RecAcc(hp, e) ==
  LET ob == e.o S == [i \in DOMAIN e.shapes |-> hp[e.shapes[i]]] IN
  [j \in DOMAIN ob.cand.v |-> LET p == ob.cand.v[j] IN
     IF \E i \in DOMAIN S : MustAccept(S[i], p, DefTol, RndFor(S[i], <<p>>)) THEN "y"
     ELSE IF \A i \in DOMAIN S : MustReject(S[i], p, DefTol, RndFor(S[i], <<p>>)) THEN "n" ELSE "?"]

\* ------------------------------------------------------------------ C21: distributions
\* Statistics are averages over the draws of functions of the normalised local coordinates u (each in [-1, 1]):
\* <<name, expected value, bound on the variance of one draw>>
Prob(name, p) == <<name, p, RMul(p, RSub("1", p))>>
Nm(i) == RInt(i)
MomentStats(d, q) ==      \* q: the expected second moments of u
  [i \in 1..d |-> <<"m" \o Nm(i), "0", q[i]>>]
  \o [i \in 1..d |-> <<"q" \o Nm(i) \o Nm(i), q[i], RSub(q[i], Sq(q[i]))>>]
  \o [i \in 1..d |-> <<"lag" \o Nm(i), "0", Sq(q[i])>>]
  \o (IF d >= 2 THEN [i \in 1..(d - 1) |-> <<"q" \o Nm(i) \o Nm(i + 1), "0", RMin(q[i], q[i + 1])>>] ELSE <<>>)
  \o (IF d >= 3 THEN << <<"q13", "0", RMin(q[1], q[3])>> >> ELSE <<>>)
Orthants(d) == [k \in 1..(2 ^ d) |-> Prob("o" \o Nm(k - 1), RPow("1/2", d))]
Const(d, x) == [i \in 1..d |-> x]
\* a capsule: <<P(between the end points), E x^2, E z^2>> by parts; the hemispheres have E w = 3 r / 8, E w^2 = r^2 / 5
CapParts(s) ==
  LET vc == s.L vs == RMul("4/3", s.r) W == RAdd(vc, vs) r2 == Sq(s.r) IN
  << RDiv(vc, W),
     RDiv(RAdd(RMul(vc, RDiv(r2, "4")), RMul(vs, RDiv(r2, "5"))), W),
     RDiv(RAdd(RMul(vc, RDiv(Sq(s.L), "12")),
               RMul(vs, RSum(<<RDiv(Sq(s.L), "4"), RMul(RMul(s.L, s.r), "3/8"), RDiv(r2, "5")>>))), W) >>
Norm3(he, H) == [i \in 1..3 |-> RDiv(H[i][i], Sq(he[i]))]
FaceName(k) == "f" \o Nm(k)
Expected(hp, e) ==
  LET d == SampleDim(hp, e) IN
  CASE e.f = "hypersphere" -> MomentStats(d, Const(d, RMk(1, d))) \o Orthants(d)
         \o [i \in 1..d |-> <<"r" \o Nm(i), RMk(3, d * (d + 2)), RMk(3, d * (d + 2))>>]
         \o (IF d = 3 THEN [i \in 1..3 |-> Prob("c" \o Nm(i), "1/2")] ELSE IF d = 2 THEN [i \in 1..2 |-> Prob("c" \o Nm(i), "1/3")] ELSE <<>>)
    [] e.f = "ball" -> MomentStats(d, Const(d, RMk(1, d + 2))) \o Orthants(d)
         \o <<Prob("g", RPow("1/2", d)), Prob("h", RPow("9/10", d))>>
    [] OTHER ->
       LET s == hp[e.of] IN
       CASE s.k = "box" /\ e.f = "points" -> MomentStats(3, Const(3, "1/3")) \o Orthants(3)
              \o [i \in 1..3 |-> Prob("c" \o Nm(i), "1/2")] \o <<Prob("k", "1/8")>>
         [] s.k = "box" /\ e.f = "surface" ->
              LET P == FacesOf(s.he) W == RSum([i \in 1..6 |-> P[i][1]]) IN
              MomentStats(3, Norm3(s.he, MixtureH(P))) \o Orthants(3)
              \o [k \in 1..6 |-> Prob(FaceName(k), RDiv(P[k][1], W))] \o <<Prob("in", "1/4")>>
         [] s.k = "box" /\ e.f = "edges" ->
              LET P == EdgesOf(s.he) W == RSum([i \in 1..12 |-> P[i][1]]) IN
              MomentStats(3, Norm3(s.he, MixtureH(P))) \o Orthants(3)
              \o [k \in 1..12 |-> Prob(FaceName(k), RDiv(P[k][1], W))] \o <<Prob("in", "1/2")>>
         [] s.k = "ell" /\ e.f = "points" ->
              \* a flat ellipsoid is uniform within its own axes
              LET nz == SelectSeq([i \in 1..d |-> i], LAMBDA i : s.he[i] # "0") r == Len(nz) IN
              MomentStats(r, Const(r, RMk(1, r + 2))) \o Orthants(r) \o <<Prob("g", RPow("1/2", r)), Prob("h", RPow("9/10", r))>>
         \* draws are weighted by the inverse of the gradient's length: weighted so, the direction u of a uniform
         \* surface point is uniform on the unit sphere (divergence theorem)
         [] s.k = "ell" /\ e.f = "surface" -> MomentStats(d, Const(d, RMk(1, d))) \o Orthants(d)
              \o [i \in 1..d |-> <<"r" \o Nm(i), RMk(3, d * (d + 2)), RMk(3, d * (d + 2))>>]
              \o (IF d = 3 THEN [i \in 1..3 |-> Prob("c" \o Nm(i), "1/2")] ELSE IF d = 2 THEN [i \in 1..2 |-> Prob("c" \o Nm(i), "1/3")] ELSE <<>>)
         [] s.k = "cyl" -> MomentStats(3, <<"1/4", "1/4", "1/3">>) \o Orthants(3)
              \o <<Prob("rad", "1/4"), Prob("c3", "1/2"), Prob("radc", "1/8")>>
         [] s.k = "cap" -> LET p == CapParts(s) z2 == Sq(RAdd(Half(s.L), s.r)) IN
              MomentStats(3, <<RDiv(p[2], Sq(s.r)), RDiv(p[2], Sq(s.r)), RDiv(p[3], z2)>>) \o Orthants(3) \o <<Prob("mid", p[1])>>
\* 6.5 standard deviations, and a little for the discreteness of small counts
StatTol(v, ess) == RAdd(RMul("13/2", RSqrt(RDiv(v, ess))), RDiv("10", ess))
StatClauses(hp, e) ==
  LET X == Expected(hp, e) ob == e.o IN
     UNION {LET x == X[k] IN
        IF x[1] \notin DOMAIN ob.st THEN {"statistic " \o x[1] \o " measured"}
        ELSE Must(RIsNum(ob.st[x[1]].y) /\ NearT(ob.st[x[1]].y, x[2], StatTol(x[3], ob.st[x[1]].ess)), "frequency or moment " \o x[1])
        : k \in DOMAIN X}
  \cup Must(ob.distinct.v = ob.count.v, "draws are distinct")

\* ------------------------------------------------------------------ C22: grids
GridN(e, i) == IF "n" \in DOMAIN e THEN e.n ELSE e.ns[i]
\* nearest lattice index (0 .. n - 1) of coordinate y in [-1, 1]
GIdx(y, n) == RFloor(RAdd(RMul(RAdd(y, "1"), RMk(n - 1, 2)), "1/2"))
GCoord(k, n) == RSub(RMk(2 * k, n - 1), "1")
GridFrame(s) == IF s.k = "box" THEN s ELSE AabbOf(s)
GridClauses(s, e) ==
  LET ob == e.o B == GridFrame(s) t == RMul("8", Tol(ShapeScale(s)))
      n1 == GridN(e, 1) n2 == GridN(e, 2) n3 == GridN(e, 3)
      All == (0..(n1 - 1)) \X (0..(n2 - 1)) \X (0..(n3 - 1))
      W(k) == ToWorld(B, <<RMul(B.he[1], GCoord(k[1], n1)), RMul(B.he[2], GCoord(k[2], n2)), RMul(B.he[3], GCoord(k[3], n3))>>) IN
  IF ~(ob.r.t = "mat" /\ Len(ob.r.sh) = 2 /\ ob.r.sh[2] = 3 /\ MIsNum(ob.r.v)) THEN {"grid is an array of points"}
  ELSE LET idx == TLCEval([j \in DOMAIN ob.r.v |-> LET y == LocalC(B, ob.r.v[j]) IN
                 <<GIdx(RDiv(y[1], B.he[1]), n1), GIdx(RDiv(y[2], B.he[2]), n2), GIdx(RDiv(y[3], B.he[3]), n3)>>])
           got == {idx[j] : j \in DOMAIN idx} IN
       Must(\A j \in DOMAIN idx : idx[j] \in All /\ VNearT(ob.r.v[j], W(idx[j]), t), "every grid point is a lattice point")
    \cup Must(Cardinality(got) = Len(ob.r.v), "each lattice point once")
    \cup (IF s.k = "box" THEN Must(got = All, "the full lattice")
          ELSE Must(\A k \in All : MustAccept(s, W(k), DefTol, RndFor(s, <<W(k)>>)) => k \in got, "lattice points of the shape are in the grid")
               \cup Must(\A k \in got : ~MustReject(s, W(k), DefTol, RndFor(s, <<W(k)>>)), "grid points lie in the shape"))

RndOps == {"rnd.sample", "rnd.weights", "rnd.psd", "rng.new", "rng.global", "rnd.call", "rej.script", "rej.record", "rnd.stats", "shape.grid"}
RndStep(hp, e) ==
  CASE e.op = "rnd.sample" ->
         IF e.f \in {"points", "surface", "edges"} /\ SampleRefused(e, hp[e.of]) THEN Refused(e, hp)
         ELSE NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, SampleClauses(hp, e)))
    [] e.op = "rnd.weights" -> NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, WeightClauses(e)))
    [] e.op = "rnd.psd" -> NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, PsdClauses(e)))
    [] e.op = "rng.new" -> NoExc(e, Res(Put(hp, e.id, [k |-> "gen", seed |-> e.seed, hist |-> <<>>]), {}))
    [] e.op = "rng.global" -> Res(hp, {})
    [] e.op = "rnd.call" ->
         LET key == CallKey(hp, e) IN
         NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(AfterCall(hp, e, key), CallClauses(hp, e, key)))
    [] e.op = "rej.script" -> Res(hp, RejClauses(e, [i \in 1..Len(e.mem[1]) |-> \E s \in DOMAIN e.mem : e.mem[s][i] = 1]))
    [] e.op = "rej.record" ->
         IF e.o.cand.t # "mat" THEN Res(hp, {"candidates"})
         ELSE LET a == RecAcc(hp, e) IN
              IF \E i \in DOMAIN a : a[i] = "?" THEN Res(hp, {}) ELSE Res(hp, RejClauses(e, [i \in DOMAIN a |-> a[i] = "y"]))
    [] e.op = "rnd.stats" -> NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, StatClauses(hp, e)))
    [] e.op = "shape.grid" -> NoExc(e, IF e.exc # "" THEN Res(hp, {}) ELSE Res(hp, GridClauses(hp[e.of], e)))
=============================================================================
