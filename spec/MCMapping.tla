----------------------------- MODULE MCMapping -----------------------------
(* Hill climbing over mappings, for every small table of object-to-variable  *)
(* gains and every bonus of mapping two objects together: whatever improving *)
(* neighbour is taken, mappings stay legal and the search ends locally best. *)
EXTENDS Mapping, TLC
CONSTANTS Objs, CVars, MaxGain
VARIABLES f, gain, bonus
Value(g) == LET one(o) == IF g[o] = o THEN 0 ELSE gain[<<o, g[o]>>]
                S[T \in SUBSET Objs] == IF T = {} THEN 0 ELSE LET o == CHOOSE o \in T : TRUE IN one(o) + S[T \ {o}]
            IN S[Objs] + IF \A o \in Objs : g[o] # o THEN bonus ELSE 0
All == {g \in [Objs -> Objs \cup CVars] : Legal(g, CVars)}
Init == /\ gain \in [Objs \X CVars -> 0..MaxGain] /\ bonus \in -2..2
        /\ f \in All
Next == /\ \E g \in Neighbours(f, CVars) : Value(g) > Value(f) /\ f' = g
        /\ UNCHANGED <<gain, bonus>>
Spec == Init /\ [][Next]_<<f, gain, bonus>> /\ WF_f(Next)
StaysLegal == Legal(f, CVars)
Locally == \A g \in Neighbours(f, CVars) : Value(g) <= Value(f)
EndsBest == <>[]Locally
\* every legal mapping of as many objects can be reached by neighbour steps
NeighboursLegal == \A g \in Neighbours(f, CVars) : Legal(g, CVars)
=============================================================================
