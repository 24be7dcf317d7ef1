------------------------------ MODULE Clusters ------------------------------
(* Flat clusterings of instances by successive splits of a hierarchy.        *)
(* par: concept -> parent (0 for the root); leaf: instance number -> leaf.   *)
(* front is the set of concepts currently directly beneath the root.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Up(_, _, _)
Up(par, F, n) == IF n \in F \/ par[n] = 0 THEN n ELSE Up(par, F, par[n])
Kids(par, n) == {x \in DOMAIN par : par[x] = n}
Root(par) == CHOOSE x \in DOMAIN par : par[x] = 0
Front0(par) == IF Kids(par, Root(par)) = {} THEN {Root(par)} ELSE Kids(par, Root(par))
Labels(par, F, leaf) == [i \in DOMAIN leaf |-> Up(par, F, leaf[i])]
Values(f) == {f[x] : x \in DOMAIN f}
Candidates(par, F, leaf) == {c \in Values(Labels(par, F, leaf)) : Kids(par, c) # {}}
SplitFront(par, F, c) == (F \ {c}) \cup Kids(par, c)
=============================================================================
