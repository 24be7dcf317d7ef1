------------------------------- MODULE MCOps --------------------------------
(* Every short sequence of concept operations; printed for replay.           *)
EXTENDS Ops, Json
CONSTANTS MaxOps
VARIABLES h
vars == <<root, nd, h, bag, hier>>
MetaDef == [a |-> [hid |-> FALSE, inner |-> "a"], x |-> [hid |-> FALSE, inner |-> "x"]]
Insts == {[nom |-> [a |-> "1"], num |-> None], [nom |-> [a |-> "2"], num |-> [x |-> <<1, 0, 3>>]]}
Name(i) == IF DOMAIN i.num = {} THEN 1 ELSE 2
Next0(o) == /\ h' = Append(h, o) /\ root' = root /\ UNCHANGED <<bag, hier>>
Do == \E n \in DOMAIN nd :
        LET c == Len(h) + 2 IN
        \/ \E i \in Insts : Inc(n, i) /\ Next0([op |-> "inc", n |-> n, i |-> Name(i), c |-> 0])
        \/ \E i \in Insts : NewChild(n, i, c) /\ Next0([op |-> "new", n |-> n, i |-> Name(i), c |-> c])
        \/ nd[n].kids = {} /\ Push(n, c) /\ Next0([op |-> "push", n |-> n, c |-> c])
        \/ \E a, b \in nd[n].kids : a < b /\ Merge(n, a, b, c) /\ Next0([op |-> "merge", n |-> n, a |-> a, b |-> b, c |-> c])
        \/ \E b \in nd[n].kids : Split(n, b) /\ Next0([op |-> "split", n |-> n, a |-> b, c |-> 0])
        \/ \E m \in DOMAIN nd \ {n} : Join(n, m) /\ Next0([op |-> "join", n |-> n, a |-> m, c |-> 0])
Init == OInit(1) /\ h = <<>> /\ CTInit
Next == Len(h) < MaxOps /\ Do /\ (IF Len(h') = MaxOps THEN PrintT("GEN|" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
Shape == IsTree
LastOp == h'[Len(h')].op
\* merging and splitting inner concepts move concepts about without losing a leaf or a count
ReorgStep == (LastOp \in {"merge", "split"}) =>
                   LET o == h'[Len(h')] IN
                   /\ (LastOp = "merge" \/ nd[o.a].kids # {}) => Leaves' = Leaves
                   /\ \A l \in Leaves \cap DOMAIN nd' : nd'[l].t = nd[l].t
                   /\ (Additive(nd, o.n) /\ (LastOp = "split" => Additive(nd, o.a) /\ nd[o.a].kids # {})) => Additive(nd', o.n)
Reorganises == [][ReorgStep]_vars
\* only the concepts named can change
Local == [][LET o == h'[Len(h')] IN
            \A x \in DOMAIN nd \cap DOMAIN nd' : x # o.n => nd'[x].t = nd[x].t /\ nd'[x].kids = nd[x].kids]_vars
=============================================================================
