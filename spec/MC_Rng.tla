-------------------------------- MODULE MC_Rng --------------------------------
(* Design model of the sources of randomness: all short interleavings of calls with integer seeds, with     *)
(* generators and without a source, and of use of NumPy's global state.  The library is ideal here: what a  *)
(* call returns is an injective function of its key and the call.  The invariants say that the clauses      *)
(* accept the ideal library and flag every deviation from it that the property forbids.                     *)
EXTENDS Rnd, Json
CONSTANTS Len0, Emit
VARIABLES hp, ev, glob
Fs == {"a", "b"}
Seeds == {1, 2}
GenIds == {x \in DOMAIN hp : x # "memo"}
GenNames == <<"g1", "g2">>
Ideal(h, e) == LET key == CallKey(h, e) IN
   [dig |-> ToString(<<key, e.call>>), gs0 |-> ToString(glob), gs1 |-> ToString(glob),
    st0 |-> IF e.src = "gen" THEN ToString(<<hp[e.gen].seed, hp[e.gen].hist>>) ELSE "",
    st1 |-> IF e.src = "gen" THEN ToString(<<hp[e.gen].seed, Append(hp[e.gen].hist, e.call)>>) ELSE ""]
Call(e) == LET f == [o |-> Ideal(hp, e)] @@ e IN /\ hp' = AfterCall(hp, f, CallKey(hp, f)) /\ ev' = Append(ev, e) /\ UNCHANGED glob
Init == hp = [x \in {} |-> 0] /\ ev = <<>> /\ glob = 0
New == /\ Cardinality(GenIds) < 2 /\ \E s \in Seeds :
          LET id == GenNames[Cardinality(GenIds) + 1] IN
          /\ hp' = Put(hp, id, [k |-> "gen", seed |-> s, hist |-> <<>>])
          /\ ev' = Append(ev, [op |-> "rng.new", id |-> id, seed |-> s]) /\ UNCHANGED glob
CallSeed == \E s \in Seeds, f \in Fs : Call([op |-> "rnd.call", call |-> f, src |-> "seed", seed |-> s])
CallGen == \E g \in GenIds, f \in Fs : Call([op |-> "rnd.call", call |-> f, src |-> "gen", gen |-> g])
CallNone == \E f \in Fs : Call([op |-> "rnd.call", call |-> f, src |-> "none"])
Global == /\ (Len(ev) > 0 => ev[Len(ev)].op # "rng.global")
          /\ glob' = 7 /\ ev' = Append(ev, [op |-> "rng.global", seed |-> 7]) /\ UNCHANGED hp
Next == Len(ev) < Len0 /\ (New \/ CallSeed \/ CallGen \/ CallNone \/ Global)
\* the calls possible in this state
Calls == {[op |-> "rnd.call", call |-> f, src |-> "seed", seed |-> s] : f \in Fs, s \in Seeds}
         \cup {[op |-> "rnd.call", call |-> f, src |-> "gen", gen |-> g] : f \in Fs, g \in GenIds}
         \cup {[op |-> "rnd.call", call |-> f, src |-> "none"] : f \in Fs}
Verdict(e, o) == CallClauses(hp, [o |-> o] @@ e, CallKey(hp, e))
Ok == \A e \in Calls : Verdict(e, Ideal(hp, e)) = {}
Flags == \A e \in Calls : LET o == Ideal(hp, e) key == CallKey(hp, e) IN
   /\ \A m \in Memo(hp) : m.call = e.call /\ m.key = key => Verdict(e, [o EXCEPT !.dig = "other"]) # {}
   /\ \A m \in Memo(hp) : m.call = e.call /\ m.key # key /\ (m.key[1] = key[1] \/ e.src = "none") => Verdict(e, [o EXCEPT !.dig = m.dig]) # {}
   /\ Verdict(e, [o EXCEPT !.gs1 = "touched"]) # {}
   /\ (e.src = "gen" => Verdict(e, [o EXCEPT !.st1 = o.st0]) # {})
Count(P(_)) == Cardinality({i \in DOMAIN ev : P(ev[i])})
IsCall(e) == e.op = "rnd.call"
Emitted == (Emit /\ Len(ev) = Len0 /\ Count(IsCall) >= 2) => PrintT("SCN " \o ToJson(ev))
=============================================================================
