---------------------------------- MODULE Frame ----------------------------------
(* The frame condition of the whole library: the state is the population of live objects, each with its public     *)
(* projection; a call may add objects and must leave every other one, every array or list it was given, and every  *)
(* array an earlier call returned, as it was; a deterministic call performed again on the same operands gives the   *)
(* same answer.  A recorded session is a behaviour of this specification iff no event violates a clause.            *)
(* Projections are sequences of tokens: exact values of the numbers observed, or words.                              *)
EXTENDS Lin, Json, IOUtils
\* equal up to rounding: an implementation may recompute what it reports
SameTok(a, b) == \/ a = b
                 \/ /\ RIsNum(a) /\ RIsNum(b)
                    /\ RLe(RAbs(RSub(a, b)), RMul("1/1000000000", RAdd("1", RMax(RAbs(a), RAbs(b)))))
NearTok(a, b) == \/ a = b
              \/ /\ RIsNum(a) /\ RIsNum(b)
                    /\ RLe(RAbs(RSub(a, b)), RMul("1/100000", RAdd("1", RMax(RAbs(a), RAbs(b)))))
SameSeq(p, q, Eqv(_, _)) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Eqv(p[i], q[i])
\* answers of numerical optimisation are repeated with the accuracy of the solver
SolverOps == {"opt.mbe", "opt.mie", "opt.ellin", "opt.support", "opt.closest", "real.query", "ell.can", "body.mbes"}

FrameStep(pop, e) ==
  LET fr == e.fr
      was(n) == pop[n]
      moved == {k \in DOMAIN fr.chg : ~SameSeq(was(fr.chg[k][1]), fr.chg[k][2], SameTok)}
      \* the caller's own arrays are not the library's to recompute: nothing in them may change at all
      args == {k \in DOMAIN fr.args : fr.args[k][2] # fr.args[k][3]}
      res == {k \in DOMAIN fr.res : fr.res[k][2] # fr.res[k][3]}
      rep == {k \in DOMAIN fr.rep : IF e.op \in SolverOps THEN ~SameSeq(fr.rep[k][1], fr.rep[k][2], NearTok)
                                    ELSE ~SameSeq(fr.rep[k][1], fr.rep[k][2], SameTok)}
      created == {k \in DOMAIN fr.new : fr.new[k][1] \in DOMAIN pop} IN
  [pop |-> [n \in DOMAIN pop \cup {fr.new[k][1] : k \in DOMAIN fr.new} |->
              IF \E k \in DOMAIN fr.new : fr.new[k][1] = n THEN fr.new[CHOOSE k \in DOMAIN fr.new : fr.new[k][1] = n][2]
              ELSE IF \E k \in DOMAIN fr.chg : fr.chg[k][1] = n THEN fr.chg[CHOOSE k \in DOMAIN fr.chg : fr.chg[k][1] = n][2]
              ELSE pop[n]],
   bad |-> {"changed a live object: " \o was(fr.chg[k][1])[1] : k \in moved}
           \cup {"changed an argument of " \o fr.args[k][1] : k \in args}
           \cup {"changed an earlier result of " \o fr.res[k][1] : k \in res}
           \cup {"performed again on the same operands, it answers differently" : k \in rep}
           \cup {"recreated a live object" : k \in created}]

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, pop
Init == sid \in DOMAIN T /\ l = 1 /\ pop = <<>>
Next == /\ l <= Len(T[sid].ev)
        /\ LET e == T[sid].ev[l] r == FrameStep(pop, e) IN
           /\ pop' = r.pop
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> sid, l |-> l, op |-> e.op, bad |-> r.bad]))
        /\ l' = l + 1 /\ sid' = sid
View == <<sid, l>>
=============================================================================
