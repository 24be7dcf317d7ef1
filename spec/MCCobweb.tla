------------------------------ MODULE MCCobweb ------------------------------
(* Exhaustive check of the machine: every sequence of at most MaxFits        *)
(* instances from a small domain, every tie broken every way.                *)
EXTENDS Cobweb
CONSTANTS MaxFits, Domain
VARIABLE k
MetaDef == [a |-> [hid |-> FALSE, inner |-> "a"], b |-> [hid |-> FALSE, inner |-> "b"],
            h |-> [hid |-> TRUE, inner |-> "h"], x |-> [hid |-> FALSE, inner |-> "x"]]
NomDomain == {[nom |-> f, num |-> None] :
                f \in {[a |-> "1"], [a |-> "2"], [a |-> "1", b |-> "1"], [a |-> "2", b |-> "1"],
                       [a |-> "2", b |-> "2", h |-> "1"]}}
MixDomain == {[nom |-> [a |-> "1"], num |-> [x |-> <<0>>]],
              [nom |-> [a |-> "1"], num |-> [x |-> <<1, 0, 3>>]],
              [nom |-> [a |-> "2"], num |-> [x |-> <<1, 0, 1>>]],
              [nom |-> [h |-> "2"], num |-> [x |-> <<1, 0, 1>>]],
              [nom |-> None, num |-> [x |-> <<-1, 5000>>]]}
Cfg == [scal |-> 5000, inner |-> TRUE]
NextIds == LET m == CHOOSE x \in DOMAIN nodes \cup {0} : \A y \in DOMAIN nodes \cup {0} : y <= x
           IN {m + 1, m + 2}
MCInit == CobwebInit(Cfg, 1) /\ k = 0
MCNext ==
    \/ k < MaxFits /\ k' = k + 1 /\ \E i \in Domain : StartFit(i)
    \/ k' = k /\ Step(IF pc = "fit" /\ IsLeaf(cur) /\ ~Fits THEN NextIds ELSE {CHOOSE x \in NextIds : x + 1 \in NextIds})
    \/ k' = k /\ Ready
    \/ k > 0 /\ k' = k /\ nodes[root].t.count > 2 /\ ClearTo(1)
MCSpec == MCInit /\ [][MCNext]_<<cvars, k>>
\* the machine refines the user's view of a hierarchy
Refines == [][\/ UNCHANGED <<bag, hier>> \/ CTReorganise \/ CTClear
              \/ pc' = "done" /\ CTFit(inst, out')]_<<bag, hier>>
\* a fit never gets stuck: some operation is always enabled
NeverStuck == pc = "fit" /\ ~IsLeaf(cur) => OpChoices(cur, inst, ScNow) # {}
\* every categorisation ends at a leaf
CatTotal == pc = "idle" /\ bag # None => \A i \in Domain : Categorize(i) # {} /\ Categorize(i) \subseteq DOMAIN bag
\* hidden attributes never matter to a score, a match or a choice
Vis(f) == [x \in {y \in DOMAIN f : ~Hidden(y)} |-> f[x]]
EraseT(t) == [count |-> t.count, nom |-> Vis(t.nom), num |-> Vis(t.num)]
HiddenInert == pc = "idle" => \A n \in DOMAIN nodes :
                  /\ nodes[n].t.count > 0 => ECG(T(n), ScNow) = ECG(EraseT(T(n)), ScNow)
                  /\ \A i \in Domain : /\ Exact(T(n), i) <=> Exact(EraseT(T(n)), Look(i))
                                       /\ T(n).count > 0 => RelCU(T(n), i, ScNow) = RelCU(EraseT(T(n)), Look(i), ScNow)
=============================================================================
