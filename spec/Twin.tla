-------------------------------- MODULE Twin --------------------------------
(* Relations between observed hierarchies: being the same state, and being   *)
(* the same hierarchy up to the identity of concepts (and hidden attributes).*)
EXTENDS Snapshot
Canon(s, sc) == [root |-> s.root, shared |-> s.shared, n |-> Len(s.nodes), scales |-> sc,
                 at |-> [i \in Ids(s) |-> LET r == Rec(s)[i]
                                          IN [par |-> r.par, kids |-> Elems(r.kids), own |-> r.own, t |-> r.t]]]
SameTab(t, u) ==            \* logged tables, equal
    /\ t.count = u.count /\ DOMAIN t.nom = DOMAIN u.nom /\ DOMAIN t.num = DOMAIN u.num
    /\ \A a \in DOMAIN t.nom : SameFun(t.nom[a], u.nom[a])
    /\ \A a \in DOMAIN t.num : /\ t.num[a].n = u.num[a].n
                               /\ Close(FromLog(t.num[a].m), FromLog(u.num[a].m))
                               /\ Close(FromLog(t.num[a].q), FromLog(u.num[a].q))
Erase(t) == [count |-> t.count,
             nom |-> [a \in {x \in DOMAIN t.nom : ~Hidden(x)} |-> t.nom[a]],
             num |-> [a \in {x \in DOMAIN t.num : ~Hidden(x)} |-> t.num[a]]]
View(vis, t) == IF vis THEN Erase(t) ELSE t      \* vis: look at visible attributes only
RECURSIVE Iso(_, _, _, _, _)
Iso(r1, n1, r2, n2, vis) ==
    /\ SameTab(View(vis, r1[n1].t), View(vis, r2[n2].t))
    /\ Len(r1[n1].kids) = Len(r2[n2].kids)
    /\ \A k \in 1..Len(r1[n1].kids) : Iso(r1, r1[n1].kids[k], r2, r2[n2].kids[k], vis)
IsoTrees(s1, s2, vis) == /\ TreeLike(s1) /\ TreeLike(s2)
                          /\ Len(s1.nodes) = Len(s2.nodes)
                          /\ Iso(Rec(s1), s1.root, Rec(s2), s2.root, vis)
SameScales(a, b) == /\ DOMAIN a = DOMAIN b
                    /\ \A x \in DOMAIN a : /\ a[x].n = b[x].n
                                           /\ Close(FromLog(a[x].m), FromLog(b[x].m))
                                           /\ Close(FromLog(a[x].q), FromLog(b[x].q))
=============================================================================
