-------------------------------- MODULE MC_Frame --------------------------------
(* Design model of value semantics: a growing population of objects, each reading some storage cells.  A derived    *)
(* object gets fresh cells, and may also share cells of its operands (a body refers to the shapes and parameters    *)
(* it was given).  Calls write fresh cells only, so nothing that existed changes its value: the property Frame.      *)
(* With Leaky = {op} the call writes a cell of its first operand instead, and TLC finds the histories that show      *)
(* it.  The histories over shared operands are emitted as scenarios.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS D, Leaky, Emit
VARIABLES pop, cell, hist
vars == <<pop, cell, hist>>
Kinds == {"S", "P", "B"}
Ix(k) == {i \in DOMAIN pop : pop[i].k = k}
\* operations: name, kinds of the operands, kind of the result ("" for a query)
Ops == { [op |-> "move", a |-> <<"S">>, r |-> "S"], [op |-> "bound", a |-> <<"S">>, r |-> "S"], [op |-> "dens", a |-> <<"S">>, r |-> "P"],
         [op |-> "sample", a |-> <<"S">>, r |-> ""], [op |-> "ask", a |-> <<"S">>, r |-> ""],
         [op |-> "move", a |-> <<"P">>, r |-> "P"], [op |-> "conv", a |-> <<"P">>, r |-> "P"], [op |-> "add", a |-> <<"P", "P">>, r |-> "P"],
         [op |-> "body", a |-> <<"S", "P">>, r |-> "B"], [op |-> "add", a |-> <<"B", "B">>, r |-> "B"], [op |-> "move", a |-> <<"B">>, r |-> "B"] }
Operands(o) == IF Len(o.a) = 1 THEN {<<i>> : i \in Ix(o.a[1])} ELSE {<<i, j>> : i \in Ix(o.a[1]), j \in Ix(o.a[2])}
Fresh == Len(cell) + 1
Shared(o, x) == IF o.r = "B" THEN UNION {pop[x[i]].cells : i \in DOMAIN x} ELSE {}
Init == /\ pop = << [k |-> "S", cells |-> {1}], [k |-> "P", cells |-> {2}] >> /\ cell = <<0, 0>> /\ hist = <<>>
Do(o, x) ==
  /\ hist' = Append(hist, [op |-> o.op, k |-> o.a[1], x |-> x])
  /\ LET c1 == IF o.op \in Leaky THEN [c \in DOMAIN cell |-> IF c \in pop[x[1]].cells THEN cell[c] + 1 ELSE cell[c]] ELSE cell IN
     cell' = IF o.r = "" THEN c1 ELSE Append(c1, 0)
  /\ pop' = IF o.r = "" THEN pop ELSE Append(pop, [k |-> o.r, cells |-> {Fresh} \cup Shared(o, x)])
Next == Len(hist) < D /\ \E o \in Ops : \E x \in Operands(o) : Do(o, x)
Spec == Init /\ [][Next]_vars
Value(p, c, i) == [x \in p[i].cells |-> c[x]]
Frame == [][\A i \in DOMAIN pop : pop'[i].k = pop[i].k /\ Value(pop', cell', i) = Value(pop, cell, i)]_vars
Typed == \A i \in DOMAIN pop : pop[i].k \in Kinds /\ pop[i].cells \subseteq DOMAIN cell /\ pop[i].cells # {}
Emitted == (Emit /\ Len(hist) = D) => PrintT("SCN " \o ToJson(hist))
=============================================================================
