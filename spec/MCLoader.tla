------------------------------ MODULE MCLoader ------------------------------
(* Callers load and then write into what they were given; later loads are    *)
(* those of the unmodified data.                                             *)
EXTENDS Loader
CONSTANTS Records, MaxLoads
VARIABLES data, held, n, fresh
vars == <<data, held, n, fresh>>
Init == data \in {<<>>} \cup [1..1 -> Records] \cup [1..2 -> Records] /\ held = <<>> /\ n = 0 /\ fresh = TRUE
Load == /\ n < MaxLoads /\ n' = n + 1 /\ data' = data /\ fresh' = TRUE
        /\ \E k \in -1..3 : held' = Append(held, [k |-> k, recs |-> Loaded(data, k)])
Write == /\ \E i \in 1..Len(held) : \E j \in 1..Len(held[i].recs), r \in Records :
               held' = [held EXCEPT ![i].recs[j] = r]
         /\ fresh' = FALSE /\ UNCHANGED <<data, n>>
Next == Load \/ Write
Spec == Init /\ [][Next]_vars
FirstN == fresh /\ held # <<>> => LET h == held[Len(held)] IN
            /\ Len(h.recs) = IF h.k < 0 \/ h.k > Len(data) THEN Len(data) ELSE h.k
            /\ \A i \in 1..Len(h.recs) : h.recs[i] = data[i]
=============================================================================
