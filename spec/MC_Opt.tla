------------------------------- MODULE MC_Opt -------------------------------
(* Design model of the optimality judgements: the bounds the specification derives from a dual           *)
(* certificate really bound every feasible candidate, over all certificates and candidates of a small      *)
(* universe; and every pair of shapes in a small universe of relative poses is emitted as a scenario.     *)
EXTENDS Opt, Json
CONSTANTS Emit, Lat
VARIABLES m, st
vars == <<m, st>>
Pt2 == {<<a, b>> : a \in Lat, b \in Lat}
Tiny == "1/1000000000000000000000000000000"
Rot2 == << <<"3/5", "-4/5">>, <<"4/5", "3/5">> >>
Ell2 == {MkEll(<<a, b>>, <<c, "0">>, R) : a \in {"1", "3/2"}, b \in {"1/2", "2"}, c \in {"0", "1/2"}, R \in {Eye(2), Rot2}}
Poly2 == { << <<"0", "0">>, <<"2", "0">>, <<"0", "2">> >>, << <<"1", "1">>, <<"-1", "1">>, <<"-1", "-1">>, <<"1", "-1">> >>, << <<"-2", "0">>, <<"1", "2">>, <<"2", "-1">> >> }
UnitVs == {<<"1", "0">>, <<"0", "1">>, <<"-3/5", "4/5">>, <<"-1", "0">>, <<"0", "-1">>, <<"0", "0">>}
\* ---- shapes and relative motions for closest points
P3 == { [op |-> "shape.new", how |-> "box", he |-> <<"1", "1/2", "3/2">>],
        [op |-> "shape.new", how |-> "box", he |-> <<"1", "0", "1/2">>, q |-> <<"1", "0", "0", "1">>],
        [op |-> "shape.new", how |-> "ell", he |-> <<"1", "1/2", "3/2">>, q |-> <<"1", "0", "1", "1">>],
        [op |-> "shape.new", how |-> "ell", he |-> <<"1", "3/2", "0">>],
        [op |-> "shape.new", how |-> "cyl", L |-> "2", r |-> "1"],
        [op |-> "shape.new", how |-> "cap", L |-> "1", r |-> "1", q |-> <<"1", "1", "0", "0">>],
        [op |-> "shape.new", how |-> "poly", V |-> << <<"0", "0", "0">>, <<"2", "0", "0">>, <<"0", "3/2", "0">>, <<"0", "0", "1">> >>] }
Motions == { [t |-> <<"3", "0", "0">>], [t |-> <<"1", "1", "1">>], [t |-> <<"0", "-4", "2">>, q |-> <<"2", "1", "0", "1">>], [t |-> <<"1/2", "0", "0">>, q |-> <<"1", "0", "0", "1">>] }
Grid3 == {<<a, b, c>> : a \in {"-1", "0", "1/2"}, b \in {"-1", "0", "1/2"}, c \in {"-1", "0", "1"}}
Dirs3 == {<<"1", "0", "0">>, <<"1", "-2", "1">>, <<"0", "1", "3">>, <<"-1", "-1", "0">>}

Init == st = <<>> /\ m = "start"
Next == /\ m = "start"
        /\ \/ m' = "enclose" /\ \E S \in {T \in SUBSET Pt2 : Cardinality(T) \in 3..4} : \E w \in {<<"1", "1", "1", "1">>, <<"2", "1", "1", "0">>, <<"1", "3", "2", "1">>} : st' = [S |-> S, w |-> w]
           \/ m' = "inscribe" /\ \E V \in Poly2, l \in [1..3 -> {"0", "1", "2"}], y \in [1..3 -> UnitVs] : st' = [V |-> V, l |-> l, y |-> y]
           \/ m' = "ellin" /\ \E a \in Ell2, b \in Ell2, t \in {"0", "1/4", "1/2", "1", "9/10", "2"} : st' = [a |-> a, b |-> b, t |-> t]
           \/ m' = "closest" /\ \E x \in P3, y \in P3, mv \in Motions : st' = [x |-> x, y |-> y, m |-> mv]
EncloseSound ==
  m = "enclose" =>
    LET pts == SetToSeq(st.S) w == SubSeq(st.w, 1, Len(pts)) IN
    RankOf([i \in DOMAIN pts |-> VSub(pts[i], pts[1])], 2) = 2 =>
    /\ \A E \in Ell2 : (\A p \in st.S : Member(E, p)) => RLe(EncloseBound(pts, w, 2), Sq(RProd(E.he)))
    \* balls with lattice centres, exactly as large as needed
    /\ \A c \in Pt2 : LET r2 == RMaxSeq([i \in DOMAIN pts |-> Norm2(VSub(pts[i], c))]) IN
         RLe(BallBound(pts, w), r2) /\ RLe(EncloseBound(pts, w, 2), Sq(r2))
\* inequalities of the polygon: one for each pair of consecutive vertices (in order), outward normals
Ineq(V, i) == LET p == V[i] q == V[(i % Len(V)) + 1] g == VSub(q, p) a == <<g[2], RNeg(g[1])>>
                  s == IF \A v \in DOMAIN V : RLe(RDot(a, V[v]), RDot(a, p)) THEN a ELSE VNeg(a) IN [a |-> s, b |-> RDot(s, p)]
InscribeSound ==
  m = "inscribe" =>
    LET ct == [i \in 1..3 |-> Ineq(st.V, i) @@ [l |-> st.l[i], y |-> st.y[i]]] IN
    /\ InscribeCertOk(ct, st.V)
    /\ \A E \in Ell2 : LET f == FaceDesc(st.V, <<>>, 2) s == [E EXCEPT !.he = VScale("2/5", E.he)] IN
         (\A i \in DOMAIN f.F : RLe(Support(s, VNeg(Tail(f.F[i]))), f.F[i][1])) =>
           /\ (IsPD(InscribeG(ct, 2)) => RLe(RProd(s.he), RAdd(Tiny, InscribeBound(ct, st.V, 2))))
           /\ ((\E i \in 1..3 : st.l[i] # "0") => RLe(RMinSeq(s.he), RAdd(Tiny, InBallBound(ct, st.V))))
EllInSound ==
  m = "ellin" =>
    /\ EllInYes(st.a, st.b, st.t) => (\A p \in Pt2 : Member(st.b, p) => Member(st.a, p)) /\ ~\E p \in Pt2 : EllInNo(st.a, st.b, p)
    /\ EllInYes(st.a, st.b, st.t) => RLe(RProd(st.b.he), RProd(st.a.he))
ClosestSound ==
  m = "closest" =>
    LET a == ShapeOf(<<>>, st.x) b == Transform(ShapeOf(<<>>, st.y), RotArg(st.m, 3), VecArg(st.m, "t", 3)) IN
    /\ \A g \in Dirs3 : LET gap == RSub(RNeg(Support(b, VNeg(g))), Support(a, g)) IN
         \A p \in Grid3 : Member(a, p) => \A q \in Grid3 : LET q2 == VAdd(q, VecArg(st.m, "t", 3)) IN
            Member(b, q2) => RLe(gap, RAdd(Tiny, RDot(g, VSub(q2, p))))
    \* a shape is the hull of its parts: same support function
    /\ \A s \in {a, b} : \A g \in Dirs3 : LET ps == Parts(s) IN
         RLe(RAbs(RSub(Support(s, g), RMaxSeq([i \in DOMAIN ps |-> RAdd(RDot(g, ps[i].c), RSqrt(Norm2(MatVec(Transp(ps[i].B), g))))]))), Tiny)
Emitted == (Emit /\ m = "closest") => PrintT("SCN " \o ToJson(st))
=============================================================================
