------------------------------- MODULE MCViews ------------------------------
(* Every hierarchy with at most MaxNodes concepts: trimming leaves lowers    *)
(* the height by one and keeps exactly the concepts with something below     *)
(* them; trimming to clusters keeps exactly the concepts with no cluster     *)
(* strictly above them.                                                      *)
EXTENDS Views, FiniteSets, TLC
CONSTANT MaxNodes
VARIABLE p            \* parent of concepts 2..n; parents come first
Init == p \in UNION {[2..n -> 1..n] : n \in 1..MaxNodes} /\ \A i \in DOMAIN p : p[i] < i
Spec == Init /\ [][FALSE]_p
N == Cardinality(DOMAIN p) + 1
RECURSIVE Build(_), Kids(_, _)
Kids(i, k) == IF k > N THEN <<>> ELSE (IF k > 1 /\ p[k] = i THEN <<Build(k)>> ELSE <<>>) \o Kids(i, k + 1)
Build(i) == [name |-> i, kids |-> Kids(i, 1)]
J == Build(1)
RECURSIVE Above(_)
Above(i) == IF i = 1 THEN {} ELSE {p[i]} \cup Above(p[i])
HasKids(i) == \E k \in DOMAIN p : p[k] = i
RECURSIVE HeightOf(_)
HeightOf(i) == Height(CHOOSE x \in Find(J, i) : TRUE)
Whole == Nodes(J) = 1..N /\ Count(J) = N
CutLaw == /\ Nodes(Cut(J)) = {1} \cup {i \in 1..N : HasKids(i)}
          /\ Height(Cut(J)) = IF Height(J) = 0 THEN 0 ELSE Height(J) - 1
CutsLaw == \A n \in 0..N : Nodes(CutTimes(J, n)) = {1} \cup {i \in 1..N : HeightOf(i) >= n}
TrimLaw == \A S \in SUBSET (1..N) : Nodes(TrimTo(J, S)) = {i \in 1..N : Above(i) \cap S = {}}
TrimAll == TrimTo(J, {1}).kids = <<>> /\ TrimTo(J, {}) = J
=============================================================================
