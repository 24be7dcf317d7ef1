------------------------------ MODULE Snapshot ------------------------------
(* A logged snapshot of a hierarchy:                                         *)
(* [root, shared, nodes: sequence of [id, par, kids, own, t]].               *)
EXTENDS ConceptTree
Ids(s) == {s.nodes[k].id : k \in 1..Len(s.nodes)}
Rec(s) == [i \in Ids(s) |-> s.nodes[CHOOSE k \in 1..Len(s.nodes) : s.nodes[k].id = i]]
Elems(q) == {q[k] : k \in 1..Len(q)}
\* usable as a tree: no concept reachable twice and no id used twice
TreeLike(s) == ~s.shared /\ Cardinality(Ids(s)) = Len(s.nodes)
SLeaves(s) == {s.nodes[k].id : k \in {j \in 1..Len(s.nodes) : s.nodes[j].kids = <<>>}}
RECURSIVE SBelow(_, _)
SBelow(r, n) == IF r[n].kids = <<>> THEN {n} ELSE UNION {SBelow(r, k) : k \in Elems(r[n].kids)}
(* many fits at once: where each instance went, and the scales              *)
RECURSIVE PutAll(_, _, _), ScaleAll(_, _, _, _)
PutAll(b, q, k) == IF k > Len(q) THEN b
                   ELSE PutAll(With(b, q[k].ret, Append(Get(b, q[k].ret, <<>>), q[k].inst)), q, k + 1)
ScaleAll(c, h, q, k) == IF k > Len(q) THEN h ELSE ScaleAll(c, AddScales(c, h, q[k].inst), q, k + 1)
=============================================================================
