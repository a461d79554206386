------------------------------- MODULE MC_Reject -------------------------------
(* Design model of the rejection sampler: the membership of every candidate drawn is chosen by the         *)
(* environment (the mask of the target shapes it lies in), round by round.                                  *)
EXTENDS Rnd, Json
CONSTANTS N, M, Masks, Emit
VARIABLES n, max, st, acc
vars == <<n, max, st, acc>>
Hit(i) == acc'[i] # 0
Init == n \in 0..N /\ max \in 0..M /\ st = RejInit /\ acc = <<>>
Next == /\ ~RejDone(st, n) /\ ~RejFail(st, n, max)
        /\ \E bits \in [1..(n - Len(st.got)) -> Masks] :
             /\ acc' = acc \o bits
             /\ st' = RejRound(st, n, Hit)
        /\ UNCHANGED <<n, max>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminal == RejDone(st, n) \/ RejFail(st, n, max)
SumI(s) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE s[k] + F(k - 1) IN F(Len(s))
Accepted == SelectSeq([i \in 1..Len(acc) |-> i], LAMBDA i : acc[i] # 0)
\* returned points are accepted candidates in the order drawn; requests never exceed what is missing
Correct ==
  /\ st.got = Accepted /\ Len(st.got) <= n
  /\ st.drawn = Len(acc) /\ SumI(st.reqs) = st.drawn
  /\ Len(st.reqs) = st.tries /\ st.tries <= max
  /\ \A k \in DOMAIN st.reqs : st.reqs[k] >= 1 /\ (k > 1 => st.reqs[k] <= st.reqs[k - 1])
ExactEnd == Terminal =>
  /\ (RejDone(st, n) => Len(st.got) = n)
  /\ (RejFail(st, n, max) => st.tries = max /\ Len(Accepted) < n)
  /\ RejRun(RejInit, n, max, [i \in 1..(Len(acc) + 1) |-> i <= Len(acc) /\ acc[i] # 0]) = st
Ends == <>Terminal
Emitted == (Emit /\ Terminal) => PrintT("SCN " \o ToJson([n |-> n, max |-> max, acc |-> acc]))
=============================================================================
