------------------------------- MODULE Trace -------------------------------
(* Trace validation: the recorded sessions T are checked against the specification.  One initial     *)
(* state per session; each step consumes one event, applies the transition of Rigeo to the heap, and  *)
(* reports the clauses its observation violates.  Every session is consumed to its end whatever is     *)
(* found, so distinct states = sum of (length + 1): the harness checks this count.                    *)
EXTENDS Rigeo, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, hp
Init == sid \in DOMAIN T /\ l = 1 /\ hp = <<>>
Next == /\ l <= Len(T[sid].ev)
        /\ LET e == T[sid].ev[l] r == Step(hp, e) IN
           /\ hp' = r.hp
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> sid, l |-> l, op |-> e.op, bad |-> r.bad]))
        /\ l' = l + 1 /\ sid' = sid
View == <<sid, l>>
=============================================================================
