----------------------------- MODULE MCClusters -----------------------------
(* Every hierarchy of at most N concepts, every choice of instances, every   *)
(* order of splits: clusterings are successive refinements.                  *)
EXTENDS Clusters
CONSTANTS N, M
VARIABLES par, leaf, front, lab
Trees == UNION {{p \in [1..n -> 0..(n - 1)] :
                   /\ p[1] = 0 /\ \A i \in 2..n : p[i] \in 1..(i - 1)
                   /\ \A i \in 2..(n - 1) : p[i] <= p[i + 1]
                   /\ \A i \in 1..n : Cardinality(Kids(p, i)) # 1} : n \in 1..N}
Init == /\ par \in Trees
        /\ \E m \in 1..M : leaf \in [1..m -> {x \in DOMAIN par : Kids(par, x) = {}}]
        /\ front = Front0(par)
        /\ lab = Labels(par, front, leaf)
Next == \E c \in Candidates(par, front, leaf) :
          /\ front' = SplitFront(par, front, c)
          /\ lab' = Labels(par, front', leaf)
          /\ UNCHANGED <<par, leaf>>
Spec == Init /\ [][Next]_<<par, leaf, front, lab>> /\ WF_lab(Next)
RECURSIVE Above(_)
Above(n) == {n} \cup IF par[n] = 0 THEN {} ELSE Above(par[n])
Cover == \A i \in DOMAIN leaf : Cardinality(Above(leaf[i]) \cap front) = 1 /\ lab[i] \in front \cap Above(leaf[i])
Refines == [][/\ \A i, j \in DOMAIN leaf : lab'[i] = lab'[j] => lab[i] = lab[j]
              /\ Cardinality({lab[i] : i \in {j \in DOMAIN leaf : lab[j] # lab'[j]}}) = 1]_lab
Ends == <>[](\A i \in DOMAIN leaf : lab[i] = leaf[i])
=============================================================================
