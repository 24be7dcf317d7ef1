---------------------------- MODULE ConceptTree ----------------------------
(* What a concept hierarchy is to its user, independent of how it is built.  *)
(*                                                                           *)
(*   bag  : leaf -> sequence of the instances stored at that leaf            *)
(*   hier : the set of clusters, a cluster being the set of leaves beneath   *)
(*          one concept                                                      *)
(*                                                                           *)
(* Fitting an instance puts it at exactly one leaf, which is either an       *)
(* existing leaf whose instances all look like it or a new one; leaves are   *)
(* permanent.  The clusters may be reorganised freely as long as they remain *)
(* a hierarchy (laminar, containing every leaf and the whole).               *)
EXTENDS Concept
VARIABLES bag, hier

Laminar(H, L) ==
    /\ \A l \in L : {l} \in H
    /\ L \in H
    /\ \A A, B \in H : A \cap B = {} \/ A \subseteq B \/ B \subseteq A
    /\ \A A \in H : A # {} /\ A \subseteq L

\* all instances at a leaf agree on every visible attribute
Look(i) == [nom |-> [a \in {x \in DOMAIN i.nom : ~Hidden(x)} |-> i.nom[a]],
            num |-> [a \in {x \in DOMAIN i.num : ~Hidden(x)} |-> i.num[a]]]
Pure(b) == \A j, k \in 1..Len(b) : Look(b[j]) = Look(b[k])

CTInit == bag = None /\ hier = {}
CTFit(i, l) ==
    /\ l \in DOMAIN bag => Look(bag[l][1]) = Look(i)
    /\ bag' = With(bag, l, Append(Get(bag, l, <<>>), i))
    /\ Laminar(hier', DOMAIN bag')
CTReorganise == bag' = bag /\ Laminar(hier', DOMAIN bag)
CTClear == bag' = None /\ hier' = {}
=============================================================================
