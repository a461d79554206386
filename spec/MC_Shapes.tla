----------------------------- MODULE MC_Shapes -----------------------------
(* Design model of shapes: a heap of shapes constructed, moved and bounded.  The invariants relate the  *)
(* state computed by the specification's operations to the point sets they denote, over a lattice of     *)
(* probe points and directions.  Behaviours of length Depth are emitted as scenarios for the library.     *)
EXTENDS RigeoCore, Json
CONSTANTS Depth, MaxObj, Emit
VARIABLES hp, hist
vars == <<hp, hist>>

Half3 == {"-3/2", "-1", "0", "1/2", "1"}
Pts == {<<a, b, c>> : a \in Half3, b \in Half3, c \in Half3}
Dirs == {<<a, b, c>> : a \in {"-1", "0", "2"}, b \in {"0", "1"}, c \in {"-1", "0", "1"}} \ {<<"0", "0", "0">>}
Quats == { <<"1", "1", "0", "0">>, <<"2", "0", "1", "0">>, <<"1", "2", "0", "1">> }
Shifts == { <<"1", "-1", "1/2">> }
News == { [op |-> "shape.new", how |-> "box", he |-> <<"1", "1/2", "3/2">>],
          [op |-> "shape.new", how |-> "box", he |-> <<"1", "0", "1/2">>, c |-> <<"1/2", "0", "0">>, q |-> <<"1", "0", "0", "1">>],
          [op |-> "shape.new", how |-> "ell", he |-> <<"1", "1/2", "3/2">>, q |-> <<"1", "0", "1", "1">>],
          [op |-> "shape.new", how |-> "ell", he |-> <<"1", "3/2", "0">>, c |-> <<"0", "1/2", "0">>],
          [op |-> "shape.new", how |-> "cyl", L |-> "2", r |-> "1", c |-> <<"0", "1/2", "0">>],
          [op |-> "shape.new", how |-> "cap", L |-> "1", r |-> "1", q |-> <<"1", "1", "0", "0">>],
          [op |-> "shape.new", how |-> "poly", V |-> << <<"0", "0", "0">>, <<"2", "0", "0">>, <<"0", "3/2", "0">>, <<"0", "0", "1">> >>],
          [op |-> "shape.new", how |-> "poly", V |-> << <<"-1", "-1", "0">>, <<"1", "-1", "0">>, <<"-1", "1", "0">>, <<"1", "1", "0">>, <<"0", "0", "3/2">> >>] }

Name(i) == "o" \o ToString(i)
N == Cardinality(DOMAIN hp)
Init == hp = <<>> /\ hist = <<>>
Do(e) == /\ Len(hist) < Depth /\ N < MaxObj
         /\ LET e2 == e @@ [id |-> Name(N + 1)] IN
            /\ hp' = ShapeStep(hp, e2 @@ [exc |-> "", o |-> <<>>]).hp
            /\ hist' = Append(hist, e2)
New == \E e \in News : Do(e)
Move == \E x \in DOMAIN hp :
          \/ \E q \in Quats, t \in Shifts : Do([op |-> "shape.transform", of |-> x, q |-> q, t |-> t])
          \/ \E q \in Quats : Do([op |-> "shape.transform", of |-> x, q |-> q])
          \/ \E t \in Shifts : Do([op |-> "shape.transform", of |-> x, t |-> t])
Spin == \E x \in DOMAIN hp, q \in Quats : hp[x].k \in {"box", "ell"} /\ Do([op |-> "shape.rotc", of |-> x, q |-> q])
Bound == \E x \in DOMAIN hp :
          \/ Do([op |-> "shape.aabb", of |-> x])
          \/ hp[x].k \in {"ell", "cyl", "cap"} /\ Do([op |-> "shape.mbb", of |-> x])
          \/ hp[x].k \in {"ell", "cyl"} /\ Do([op |-> "shape.mib", of |-> x])
Conv == \E x \in DOMAIN hp : hp[x].k = "box" /\ (\A i \in 1..3 : hp[x].he[i] # "0") /\ Do([op |-> "shape.new", how |-> "as_poly", of |-> x])
Next == New \/ Move \/ Spin \/ Bound \/ Conv

LastEv == hist[Len(hist)]
Before == hp[LastEv.of]
After == hp[LastEv.id]
On(ops) == Len(hist) > 0 /\ LastEv.op \in ops
\* a point is in the moved set exactly when its pre-image is in the original
MovesExact ==
  /\ On({"shape.transform"}) =>
       \A p \in Pts : Member(Before, p) = Member(After, VAdd(MatVec(RotArg(LastEv, 3), p), VecArg(LastEv, "t", 3)))
  /\ On({"shape.rotc"}) => After.c = Before.c /\
       \A p \in Pts : Member(Before, p) = Member(After, VAdd(MatVec(RotArg(LastEv, 3), VSub(p, Before.c)), Before.c))
  /\ (On({"shape.new"}) /\ "of" \in DOMAIN LastEv) => \A p \in Pts : Member(Before, p) = Member(After, p)
\* bounding boxes contain the shape and touch it on every face (roots are rounded to 40 digits)
Tiny == "1/1000000000000000000000000000000"
BoundsExact == On({"shape.aabb", "shape.mbb"}) =>
  /\ \A p \in Pts : Member(Before, p) => MustAccept(After, p, "1/1000000000000000000000000", "0")
  /\ \A i \in 1..3 : \A sg \in {"1", "-1"} : LET n == VScale(sg, Col(After.R, i)) IN
       RLe(RAbs(RSub(Support(After, n), Support(Before, n))), Tiny)
InscribedInside == On({"shape.mib"}) => \A v \in DOMAIN BoxVertices(After) : Member(Before, BoxVertices(After)[v])
\* sameness is decided for point sets
SameSound == \A x, y \in DOMAIN hp : LET a == hp[x] b == hp[y] IN
  /\ SameSet(a, a) /\ SameSet(a, b) = SameSet(b, a)
  /\ SameSet(a, b) => (\A p \in Pts : Member(a, p) = Member(b, p)) /\ ~DiffBy(a, b, Tiny)
  /\ \A q \in Quats, t \in Shifts : SameSet(a, b) = SameSet(Transform(a, QuatRot(q), t), Transform(b, QuatRot(q), t))
SupportSound == \A x \in DOMAIN hp : \A n \in Dirs : LET h == Support(hp[x], n) IN
  \A p \in Pts : Member(hp[x], p) => RLe(RDot(n, p), RAdd(h, Tiny))
\* the decided regions of a tolerant membership test are consistent with the exact set
AcceptSound == \A x \in DOMAIN hp : LET s == hp[x] IN \A p \in Pts :
  /\ Member(s, p) => MustAccept(s, p, "1/1000000", "0")
  /\ ~(MustAccept(s, p, "1/100", "0") /\ MustReject(s, p, "1/100", "0"))
  /\ MustAccept(s, p, "1/1000", "0") => MustAccept(s, p, "1/10", "0")
  /\ MustReject(s, p, "0", "0") => ~Member(s, p)
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("SCN " \o ToJson(hist))
=============================================================================
