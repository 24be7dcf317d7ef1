-------------------------------- MODULE Views -------------------------------
(* Exports of a hierarchy and the views trimmed from them.  An export is     *)
(* [name, kids] plus what the concept knows; kids is a sequence of exports.  *)
EXTENDS Integers, Sequences
Ix(j) == 1..Len(j.kids)
RECURSIVE Cut(_), CutTimes(_, _), TrimTo(_, _), Nodes(_), Height(_), Count(_), CountFrom(_, _)
\* without the leaves (the root stays)
RECURSIVE Sel(_, _)
Sel(q, i) == IF i > Len(q) THEN <<>>
             ELSE (IF q[i].kids # <<>> THEN <<Cut(q[i])>> ELSE <<>>) \o Sel(q, i + 1)
Cut(j) == [j EXCEPT !.kids = Sel(j.kids, 1)]
CutTimes(j, n) == IF n = 0 THEN j ELSE CutTimes(Cut(j), n - 1)
\* without everything below the concepts named in S
TrimTo(j, S) == IF j.name \in S THEN [j EXCEPT !.kids = <<>>]
              ELSE [j EXCEPT !.kids = [i \in Ix(j) |-> TrimTo(j.kids[i], S)]]
Nodes(j) == {j.name} \cup UNION {Nodes(j.kids[i]) : i \in Ix(j)}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Height(j) == IF j.kids = <<>> THEN 0 ELSE 1 + MaxOf({Height(j.kids[i]) : i \in Ix(j)})
CountFrom(j, i) == IF i > Len(j.kids) THEN 0 ELSE Count(j.kids[i]) + CountFrom(j, i + 1)
Count(j) == 1 + CountFrom(j, 1)
RECURSIVE Find(_, _)
\* the part of j named n, as a set of at most one
Find(j, n) == IF j.name = n THEN {j} ELSE UNION {Find(j.kids[i], n) : i \in Ix(j)}
=============================================================================
