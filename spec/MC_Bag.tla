-------------------------------- MODULE MC_Bag --------------------------------
(* Design model of the order-insensitive comparison: the greedy row matching the library documents, run on    *)
(* every pair of matrices of at most MR rows over the rows 1..K.  A row of A is matched with the first row    *)
(* of B that equals it and has not been matched yet; the comparison fails when there is none.                 *)
EXTENDS Mom, Json
CONSTANTS K, MR, Emit
VARIABLES A, B, i, used, res
Rws == UNION {[1..n -> 1..K] : n \in 0..MR}
Init == /\ A \in Rws /\ B \in {b \in Rws : Len(b) = Len(A)} /\ i = 1 /\ used = {} /\ res = "run"
Match == {j \in DOMAIN B : B[j] = A[i] /\ j \notin used}
Next == /\ res = "run"
        /\ IF i > Len(A) THEN res' = "yes" /\ UNCHANGED <<i, used>>
           ELSE IF Match = {} THEN res' = "no" /\ UNCHANGED <<i, used>>
           ELSE used' = used \cup {CHOOSE j \in Match : \A k \in Match : j <= k} /\ i' = i + 1 /\ res' = res
        /\ UNCHANGED <<A, B>>
Count(S, r) == Cardinality({k \in DOMAIN S : S[k] = r})
SameBag == \A r \in 1..K : Count(A, r) = Count(B, r)
RowSeq(S) == [k \in DOMAIN S |-> <<RInt(S[k]), "0">>]
E0 == [atol |-> "1/100", rtol |-> "0", equal_nan |-> FALSE]
Greedy == (res = "yes" => SameBag) /\ (res = "no" => ~SameBag)
Matched == Cardinality(used) = i - 1 /\ \A r \in 1..K : Cardinality({j \in used : B[j] = r}) = Cardinality({k \in 1..(i - 1) : A[k] = r})
\* the definition by classes used to judge the library agrees with counting
Classes == (i = 1 /\ res = "run") => (SameRowBag(RowSeq(A), RowSeq(B), E0) <=> SameBag) /\ RowsClassed(RowSeq(A), RowSeq(B), E0)
Emitted == (Emit /\ res # "run") => PrintT("SCN " \o ToJson([A |-> A, B |-> B]))
=============================================================================
