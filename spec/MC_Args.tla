-------------------------------- MODULE MC_Args --------------------------------
(* Every call over small argument sizes and signs.  The invariants state that the rules of Fits are sharp: an       *)
(* argument of a fitting call cannot be replaced by one that is longer or shorter, or has one dimension more, no     *)
(* sign can be flipped, and operands cannot be moved to another dimension.  The states are emitted as scenarios.     *)
EXTENDS Args, Json
CONSTANT Big
VARIABLE c
Ns == IF Big THEN {1, 2, 3, 4, 5} ELSE {1, 2, 3, 4}
Vecs == {<<n>> : n \in Ns}
Mats == {<<n, n>> : n \in Ns} \cup {<<2, 3>>, <<3, 2>>, <<3, 4>>, <<4, 3>>}
NearSizes == {<<1>>, <<2>>, <<3>>, <<4>>, <<3, 1>>, <<1, 3>>, <<3, 3>>}
\* optional arguments: at most one of them unusual
OptArg(r, k, S) == {r} \cup {(k :> s) @@ r : s \in S}
WithFlag(r, k) == {r, (k :> TRUE) @@ r}
Posed(r, n) == OptArg(r, "rot", Mats) \cup OptArg(r, "ctr", Vecs \cup {<<3, 1>>}) \cup {("rot" :> <<n, n>>) @@ ("ctr" :> <<m>>) @@ r : m \in {n, n + 1}}
Kinds3 == {"box", "ell", "cyl", "cap", "poly"}
Recv(f) == \* receivers: kind and dimension
  CASE f \in {"transform", "contains"} -> {<<k, 3>> : k \in Kinds3} \cup {<<"ell", 1>>, <<"ell", 2>>, <<"ell", 4>>, <<"poly", 2>>}
    [] f = "on_surface" -> {<<"box", 3>>, <<"ell", 3>>, <<"ell", 2>>, <<"ell", 1>>, <<"ell", 4>>}
    [] f = "must_contain" -> {<<k, 3>> : k \in Kinds3} \cup {<<"ell", 2>>, <<"poly", 2>>}
    [] f = "can_realize" -> {<<"ell", 3>>, <<"ell", 2>>, <<"ell", 4>>, <<"ell", 1>>}
On(f, S) == {[of |-> r[1], d |-> r[2]] @@ s : r \in Recv(f), s \in S}
Densities == {<<"box", "uniform">>, <<"box", "hollow">>, <<"box", "wireframe">>, <<"cyl", "uniform">>, <<"ell", "uniform">>, <<"ell", "hollow">>}
Families == {<<"box", "sdp">>, <<"box", "vertex">>, <<"box", "custom">>, <<"poly", "sdp">>, <<"poly", "vertex">>, <<"cyl", "sdp">>, <<"cyl", "custom">>, <<"ell", "ell">>}
VarSizes == {<<4, 4>>, <<10>>, <<9>>, <<10, 1>>, <<3, 3>>, <<4, 3>>, <<16>>}
Calls ==
  UNION {UNION {Posed([f |-> "box", he |-> v], 3) : v \in {<<3>>}}, {[f |-> "box", he |-> v] : v \in Vecs \cup {<<3, 1>>, <<1, 3>>}}, WithFlag([f |-> "box", he |-> <<3>>], "neg"),
         UNION {Posed([f |-> "ell", he |-> <<n>>], n) : n \in Ns}, {[f |-> "ell", he |-> <<2, 2>>]},
         UNION {WithFlag([f |-> "ell", he |-> v], "neg") \cup WithFlag([f |-> "ell", he |-> v], "inf") : v \in Vecs},
         UNION {WithFlag([f |-> f], "neg") \cup WithFlag([f |-> f], "inf") : f \in {"cube", "sphere"}}, WithFlag([f |-> "box", he |-> <<3>>], "inf"),
         {[f |-> "sides", v |-> v] : v \in Vecs}, WithFlag([f |-> "sides", v |-> <<3>>], "neg"), {[f |-> "corners", v |-> v, w |-> w] : v, w \in Vecs},
         {[f |-> "bound", P |-> p] : p \in {<<4, n>> : n \in Ns} \cup {<<1, 3>>, <<0, 3>>, <<3>>, <<2, 2, 3>>}},
         {[f |-> "shape_matrix", A |-> a] : a \in Mats} \cup {[f |-> "shape_matrix", A |-> <<n, n>>, ctr |-> <<m>>] : n \in {2, 3}, m \in Ns},
         {[f |-> "affine", A |-> a, b |-> b] : a \in Mats, b \in Vecs},
         {[f |-> "capsule", of3 |-> k] : k \in {"cyl", "box", "ell", "cap"}},
         {[f |-> "rotc", of |-> k[1], d |-> k[2], rot |-> m] : k \in {<<"box", 3>>, <<"ell", 3>>, <<"ell", 2>>}, m \in Mats},
         {[f |-> "contains_ell", of |-> "ell", d |-> a, of2 |-> "ell", d2 |-> b] : a, b \in {2, 3}},
         {[f |-> f, A |-> a] : f \in {"H2I", "I2H"}, a \in Mats \cup {<<3>>}}, {[f |-> "jacobian", a |-> a] : a \in Vecs},
         {[f |-> "eval", n |-> n, x |-> x] : n \in {1, 2, 3}, x \in Vecs},
         {[f |-> g, n1 |-> a, n2 |-> b] : g \in {"poly.plus", "poly.terms"}, a, b \in {1, 2, 3, 4}},
         WithFlag([f |-> "wrench"], "raw"),
         {[f |-> "sample", of |-> k, d |-> 3, how |-> "points", sh |-> sh] : k \in Kinds3, sh \in {<<1>>, <<2>>, <<3>>, <<2, 3>>, <<-1>>, <<2, -1>>, <<-2, -3>>}},
         {[f |-> "sample", of |-> k, d |-> 3, how |-> "surface", sh |-> sh] : k \in {"box", "ell"}, sh \in {<<1>>, <<3>>, <<-1>>, <<2, -1>>}},
         {[f |-> "schur", A |-> a, B |-> b, C |-> g] : a \in {<<3, 3>>, <<3, 2>>}, b \in {<<3, 1>>, <<2, 1>>, <<3, 2>>}, g \in {<<1, 1>>, <<2, 2>>, <<2, 1>>}},
         Posed([f |-> "cyl"], 3), UNION {WithFlag(r, "negL") : r \in WithFlag([f |-> "cyl"], "negr")},
         UNION {WithFlag([f |-> "simplex", he |-> v], g) : v \in {<<2>>, <<3>>}, g \in {"neg", "zero", "inf"}}, {[f |-> "simplex", he |-> v] : v \in {<<3, 3>>, <<3, 1>>, <<1, 3>>, <<4>>}},
         {[f |-> "rays", n |-> n, R |-> k] : n \in {2, 3}, k \in 0..3},
         UNION {OptArg([f |-> g, n |-> n], "rot", Mats \cup {<<1, 3>>, <<3>>}) \cup OptArg([f |-> g, n |-> n], "t", Vecs \cup {<<3, 1>>, <<1, 3>>}) : n \in {2, 3}, g \in {"sf.transform", "ff.transform"}},
         {[f |-> g, n1 |-> a, n2 |-> b] : g \in {"stack", "mbee", "poly.localize", "locmat"}, a, b \in {1, 2, 3}},
         {[f |-> "mie", A |-> <<2 * n, n>>, b |-> <<m>>] : n \in {2, 3}, m \in 4..7},
         {[f |-> "rmse", Y |-> <<a, 6, 10>>, ws |-> w, th |-> <<t>>] : a \in {1, 3, 6}, w \in {<<1, 6>>, <<3, 6>>, <<6, 6>>, <<6>>, <<3>>, <<3, 1>>, <<1, 1>>}, t \in {9, 10}},
         {[f |-> "pimvec", v |-> v] : v \in {<<9>>, <<10>>, <<11>>, <<10, 1>>, <<1, 10>>}},
         {[f |-> "localize", n |-> n, d |-> q, M |-> <<m, m>>] : n \in {2, 3}, q \in {1, 2}, m \in {3, 4, 6, 10}},
         {[f |-> "sv.plus", side |-> "r", other |-> o] : o \in {"sv", "number", "array"}},
         {[f |-> "diag", mean |-> a, cov |-> b] : a, b \in {"sv", "array"}},
         {[f |-> "verts", V |-> v] : v \in {<<4, 3>>, <<5, 2>>, <<1, 3>>, <<3, 3>>, <<3>>, <<2, 2, 3>>, <<0, 3>>}},
         {[f |-> "halfspaces", A |-> a, b |-> <<m>>] : a \in {<<6, 3>>, <<5, 3>>, <<3, 3>>, <<4, 2>>, <<3, 2>>}, m \in {3, 4, 5, 6, 7}},
         On("transform", UNION {OptArg([f |-> "transform"], "t", Vecs \cup {<<3, 1>>}), OptArg([f |-> "transform"], "rot", Mats), {[f |-> "transform", rot |-> <<3, 3>>, t |-> t] : t \in Vecs}}),
         On("contains", {[f |-> "contains", pts |-> p] : p \in Vecs \cup {<<2, n>> : n \in Ns} \cup {<<2, 2, 3>>, <<1, 1, 3>>, <<3, 1>>, <<1, 3>>}}),
         On("on_surface", {[f |-> "on_surface", pts |-> p] : p \in Vecs \cup {<<2, n>> : n \in Ns} \cup {<<2, 2, 3>>, <<1, 1, 3>>}}),
         On("must_contain", {[f |-> "must_contain", pts |-> p] : p \in {<<2>>, <<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<2, 4>>}}),
         {[f |-> "grid", of |-> k, d |-> 3, n |-> n] : k \in {"ell", "cyl", "cap"}, n \in {-2, -1, 0, 1, 2, 3}},
         {[f |-> "grid", of |-> k, d |-> 3, n |-> n] : k \in {"box", "poly"}, n \in {-2, -1, 1, 2, 3}},
         UNION {WithFlag([f |-> "density", of |-> kd[1], d |-> 3, how |-> kd[2]], "neg") : kd \in Densities},
         {[f |-> "density", of |-> "ell", d |-> n, how |-> h] : n \in Ns, h \in {"uniform"}} \cup {[f |-> "density", of |-> "ell", d |-> n, how |-> "hollow"] : n \in {1, 2, 3, 4}},
         {[f |-> "masses", of |-> "poly", d |-> 3, nv |-> 4, m |-> <<n>>] : n \in {3, 4, 5}} \cup {[f |-> "masses", of |-> "poly", d |-> 3, nv |-> 4, m |-> s] : s \in {<<4, 1>>, <<1, 4>>}},
         WithFlag([f |-> "masses", of |-> "poly", d |-> 3, nv |-> 4, m |-> <<4>>], "neg"),
         {[f |-> "family", of |-> kf[1], d |-> 3, fam |-> kf[2], var |-> v] : kf \in Families, v \in VarSizes},
         {[f |-> "family", of |-> kf[1], d |-> 3, fam |-> kf[2], var |-> v, negeps |-> TRUE] : kf \in Families, v \in {<<4, 4>>, <<10>>}},
         {[f |-> "family", of |-> "ell", d |-> n, fam |-> "ell", var |-> <<4, 4>>] : n \in {1, 2, 3, 4}},
         {[f |-> "family", of |-> "poly", d |-> 2, fam |-> g, var |-> <<4, 4>>] : g \in {"sdp", "vertex"}},
         On("can_realize", {[f |-> "can_realize"]}),
         UNION {OptArg([f |-> "par"], a, NearSizes) : a \in {"com", "h", "H", "I"}}, WithFlag([f |-> "par"], "neg"),
         {(a :> <<3>>) @@ (b :> m) @@ [f |-> "par", tfc |-> t] : a \in {"com", "h"}, b \in {"H", "I"}, m \in {<<3, 3>>, <<2, 2>>, <<4, 4>>, <<3>>}, t \in BOOLEAN},
         {[f |-> "par", com |-> <<3>>, h |-> <<3>>], [f |-> "par", H |-> <<3, 3>>, I |-> <<3, 3>>]},
         {[f |-> "par.vec", v |-> v] : v \in {<<9>>, <<10>>, <<11>>, <<10, 1>>, <<1, 10>>, <<6>>}},
         {[f |-> "par.pim", J |-> v] : v \in Mats \cup {<<16>>, <<5, 5>>}},
         {[f |-> "par.pm", m |-> <<n>>, P |-> p] : n \in {1, 2, 3}, p \in {<<2, 3>>, <<3, 3>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<3>>, <<2, 4>>}},
         OptArg([f |-> "par.transform"], "t", Vecs \cup {<<3, 1>>}) \cup OptArg([f |-> "par.transform"], "rot", {m \in Mats : m # <<1, 1>>}),
         {[f |-> "body.family", of |-> k, d |-> 3, n |-> n, var |-> v] : k \in {"box", "ell", "cyl", "poly"}, n \in {1, 2}, v \in VarSizes},
         {[f |-> "body.family", of |-> k, d |-> 3, n |-> n, var |-> v, negeps |-> TRUE] : k \in {"box", "ell"}, n \in {1, 2}, v \in {<<4, 4>>, <<10>>}},
         UNION {OptArg([f |-> "body.transform", n |-> n], "t", Vecs \cup {<<3, 1>>}) \cup OptArg([f |-> "body.transform", n |-> n], "rot", Mats) : n \in {0, 1, 2}},
         {[f |-> "body.plus", side |-> w, other |-> o] : w \in {"l", "r"}, o \in {"body", "par", "number", "shape", "none"}} \cup {[f |-> "body.plus", side |-> "l", other |-> "zero"]},
         {[f |-> "par.plus", side |-> w, other |-> o] : w \in {"l", "r"}, o \in {"par", "number", "shape", "none"}} \cup {[f |-> "par.plus", side |-> "l", other |-> "zero"], [f |-> "par.plus", side |-> "r", other |-> "array"]},
         {[f |-> "vech", a |-> a] : a \in Mats \cup {<<4>>, <<2, 2, 2>>}},
         {[f |-> "unvech", a |-> <<n>>] : n \in 1..(IF Big THEN 22 ELSE 12)} \cup {[f |-> "unvech", a |-> <<3, 1>>], [f |-> "unvech", a |-> <<2, 3>>]},
         {[f |-> f, a |-> a] : f \in {"skew3", "lift3"}, a \in Vecs \cup {<<3, 1>>, <<3, 3>>}},
         UNION {OptArg([f |-> "frame", n |-> n], "rot", Mats) \cup OptArg([f |-> "frame", n |-> n], "t", Vecs) : n \in {2, 3}},
         UNION {WithFlag(r, "negT") : r \in WithFlag([f |-> "times"], "negs")},
         {[f |-> "sv", lin |-> a, ang |-> b] : a \in Vecs, b \in Vecs}, {[f |-> "sv.vec", v |-> v] : v \in {<<3>>, <<5>>, <<6>>, <<7>>, <<6, 1>>, <<2, 3>>}},
         {[f |-> "index", n1 |-> a, n2 |-> b] : a \in {2, 3, 4}, b \in {2, 3, 4}},
         {[f |-> f, n |-> n, d |-> q, M |-> <<m, m>>] : f \in {"moments", "substitute"}, n \in {2, 3}, q \in {1, 2}, m \in {3, 4, 6, 10}},
         {[f |-> "psd", J |-> v] : v \in {<<4, 4>>, <<3, 3>>, <<4, 3>>, <<5, 5>>}}, WithFlag([f |-> "psd", J |-> <<4, 4>>], "negeps"),
         {[f |-> "closest", of |-> a[1], d |-> a[2], of2 |-> b[1], d2 |-> b[2]] : a, b \in {<<"ell", 3>>, <<"ell", 2>>, <<"poly", 3>>, <<"poly", 2>>, <<"box", 3>>}},
         {[f |-> "contains_poly", of |-> "poly", d |-> a, of2 |-> "poly", d2 |-> b] : a, b \in {2, 3}},
         {[f |-> "intersect", of |-> k1[1], d |-> k1[2], of2 |-> k2[1], d2 |-> k2[2], k2 |-> k2[1]] :
            k1 \in {<<"box", 3>>, <<"poly", 3>>, <<"poly", 2>>}, k2 \in {<<"box", 3>>, <<"poly", 3>>, <<"poly", 2>>, <<"ell", 3>>, <<"ell", 2>>, <<"cyl", 3>>, <<"cap", 3>>}},
         {[f |-> "contains_poly", of |-> a[1], d |-> a[2], of2 |-> "poly", d2 |-> b] : a \in {<<"ell", 3>>, <<"ell", 2>>, <<"box", 3>>, <<"cyl", 3>>}, b \in {2, 3}},
         {[f |-> "hull", P |-> p] : p \in {<<4, 3>>, <<5, 2>>, <<3>>, <<2, 2, 3>>, <<1, 3>>}},
         {[f |-> "face", A |-> a, b |-> <<m>>] : a \in {<<4, 3>>, <<3, 2>>}, m \in {2, 3, 4, 5}},
         {[f |-> "face", A |-> <<4, 3>>, b |-> <<4>>, Ae |-> <<k, n>>, be |-> <<m>>] : k \in {1, 2}, n \in {2, 3, 4}, m \in {1, 2, 3}},
         {[f |-> "span", V |-> <<4, 3>>, R |-> <<2, n>>] : n \in Ns} \cup {[f |-> "span", V |-> <<4, 3>>, L |-> <<1, n>>] : n \in Ns}
           \cup {[f |-> "span", R |-> <<2, 3>>, L |-> <<1, n>>] : n \in Ns} \cup {[f |-> "span", V |-> <<2, 2>>], [f |-> "span", R |-> <<2, 2>>]},
         {[f |-> "sphere.pts", dim |-> n] : n \in -2..3}, {[f |-> "ball.pts", dim |-> n] : n \in -1..4}}
D(x) == IF "of" \in DOMAIN x THEN x.d ELSE 0
D2(x) == IF "of2" \in DOMAIN x THEN x.d2 ELSE 0
Ok(x) == Fits(x, D(x), D2(x))
Init == c \in Calls
Next == UNCHANGED c
\* arguments whose last dimension is determined by the others
Rigid == {"rot", "ctr", "t", "com", "h", "H", "I", "v", "J", "lin", "ang", "var", "M", "m", "w", "x", "ws"}
Longer(sz) == [sz EXCEPT ![Len(sz)] = @ + 1]
Shorter(sz) == [sz EXCEPT ![Len(sz)] = @ - 1]
Sharp == Ok(c) =>
  /\ \A k \in Rigid \cap DOMAIN c : ~Ok([c EXCEPT ![k] = Longer(@)]) /\ ~Ok([c EXCEPT ![k] = Shorter(@)]) /\ ~Ok([c EXCEPT ![k] = Append(@, 1)])
  /\ \A k \in {"neg", "inf", "zero", "negL", "negr", "negeps", "negT", "negs"} : ~Flag(c, k)
  /\ ("pts" \in DOMAIN c => ~Ok([c EXCEPT !.pts = Longer(@)]) /\ ~Ok([c EXCEPT !.pts = Shorter(@)]))
  /\ ("of2" \in DOMAIN c => ~Ok([c EXCEPT !.d = @ + 1]))
  /\ (c.f \in {"transform", "contains", "on_surface", "must_contain"} /\ DOMAIN c \cap {"pts", "rot", "t"} # {} => ~Ok([c EXCEPT !.d = @ + 1]))
\* every operation is answered for some arguments, and refused for others
Ops == {x.f : x \in Calls}
Both == c \in Calls => \E x \in Calls : x.f = c.f /\ Ok(x) # Ok(c)
Emitted == PrintT("SCN " \o ToJson(("fits" :> Ok(c)) @@ c))
=============================================================================
