----------------------------- MODULE Evaluation -----------------------------
(* The protocol of an incremental evaluation: every run starts from a        *)
(* cleared tree, and each instance of the run is scored on a tree that has   *)
(* learned exactly the instances scored before it in that run.               *)
EXTENDS Integers, Sequences
\* c: [n |-> number of instances, len |-> run length, runs |-> number of runs, rnd |-> shuffle the first run]
RowLen(c) == IF c.len < c.n THEN c.len ELSE c.n
RunOf(c, k) == ((k - 1) \div RowLen(c)) + 1
PosOf(c, k) == ((k - 1) % RowLen(c)) + 1
Calls(c) == c.runs * RowLen(c)
\* the instances learned when call k happens, given the instance of every call
LearnedAt(c, ids, k) == SubSeq(ids, k - PosOf(c, k) + 1, k - 1)
RunIds(c, ids, r) == SubSeq(ids, (r - 1) * RowLen(c) + 1, r * RowLen(c))
Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
\* the table of results: one row per run, one entry (the call's number) per instance
Table(c) == [r \in 1..c.runs |-> [p \in 1..RowLen(c) |-> (r - 1) * RowLen(c) + p]]
=============================================================================
