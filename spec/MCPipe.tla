------------------------------- MODULE MCPipe -------------------------------
(* Every small pipeline, also with pipelines among its parts.                *)
EXTENDS Pipe, TLC, Json
CONSTANTS MaxParts
VARIABLE a
Parts == {[k |-> "a", way |-> 2], [k |-> "b", way |-> 2], [k |-> "o", way |-> 1]}
Inner == {[p |-> q] : q \in {<<>>} \cup UNION {[1..n -> Parts] : n \in 1..2}}
Init == a = [p |-> <<>>] /\ PrintT("GEN|" \o ToJson(a))
Next == /\ Len(a.p) < MaxParts
        /\ \E x \in Parts \cup Inner : a' = [p |-> Append(a.p, x)] /\ PrintT("GEN|" \o ToJson(a'))
Spec == Init /\ [][Next]_a
X == <<"x">>
Reverses == TwoWay(a) => Undo(a, Do(a, X)) = X
InOrder == Do(a, X) = X \o [k \in 1..Len(Flat(a)) |-> Flat(a)[k].k]
Grouping == Do([p |-> Flat(a)], X) = Do(a, X) /\ Undo([p |-> Flat(a)], Do(a, X)) = Undo(a, Do(a, X))
=============================================================================
