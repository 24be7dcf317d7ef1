------------------------------- MODULE MCEval -------------------------------
(* The evaluation loop as a state machine, for every small list, run length, *)
(* number of runs and shuffling.                                             *)
EXTENDS Evaluation, FiniteSets, TLC
CONSTANTS MaxN, MaxLen, MaxRuns
VARIABLES c, order, run, pos, learned, ids, seen, rows, pc
vars == <<c, order, run, pos, learned, ids, seen, rows, pc>>
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Init == /\ c \in [n : 0..MaxN, len : 0..MaxLen, runs : 0..MaxRuns, rnd : BOOLEAN]
        /\ order = [i \in 1..c.n |-> i] /\ run = 0 /\ pos = 0 /\ learned = <<>>
        /\ ids = <<>> /\ seen = <<>> /\ rows = <<>> /\ pc = "run"
Begin == /\ pc = "run" /\ run < c.runs
         /\ run' = run + 1 /\ pos' = 1 /\ learned' = <<>> /\ rows' = Append(rows, <<>>)
         /\ order' \in IF c.rnd \/ run > 0 THEN Perms(c.n) ELSE {order}
         /\ pc' = IF RowLen(c) = 0 THEN "run" ELSE "score"
         /\ UNCHANGED <<c, ids, seen>>
Score == /\ pc = "score"
         /\ ids' = Append(ids, order[pos]) /\ seen' = Append(seen, learned)
         /\ rows' = [rows EXCEPT ![run] = Append(@, Len(ids) + 1)]
         /\ pc' = "learn" /\ UNCHANGED <<c, order, run, pos, learned>>
Learn == /\ pc = "learn"
         /\ learned' = Append(learned, order[pos]) /\ pos' = pos + 1
         /\ pc' = IF pos < RowLen(c) THEN "score" ELSE "run"
         /\ UNCHANGED <<c, order, run, ids, seen, rows>>
Next == Begin \/ Score \/ Learn
Spec == Init /\ [][Next]_vars
ScoredBeforeLearning == \A k \in 1..Len(ids) : seen[k] = LearnedAt(c, ids, k)
                                                /\ \A i \in 1..Len(seen[k]) : seen[k][i] # ids[k]
EachOnce == \A r \in 1..run - 1 : Distinct(RunIds(c, ids, r))
Complete == pc = "run" /\ run = c.runs => Len(ids) = Calls(c) /\ rows = Table(c)
GivenOrder == ~c.rnd => \A k \in 1..Len(ids) : RunOf(c, k) = 1 => ids[k] = k
=============================================================================
