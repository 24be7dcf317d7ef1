--------------------------------- MODULE Ops ---------------------------------
(* The operations on concepts, each as what it changes and nothing else.     *)
(*   nd : concept -> [par, kids, t]   (kids a set, 0 the parent of the root) *)
EXTENDS Snapshot
VARIABLES root, nd
Node(p, k, t) == [par |-> p, kids |-> k, t |-> t]
OInit(r) == root = r /\ nd = [x \in {r} |-> Node(0, {}, EmptyTable)]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* add an instance to the table of one concept
Inc(n, i) == nd' = [nd EXCEPT ![n].t = AddInst(@, i)]
\* add the table of one concept to another's
Join(n, m) == nd' = [nd EXCEPT ![n].t = AddTable(@, nd[m].t)]
\* a new child holding one instance
NewChild(n, i, c) == nd' = With([nd EXCEPT ![n].kids = @ \cup {c}], c, Node(n, {}, AddInst(EmptyTable, i)))
\* a new child holding what the (leaf) concept holds
Push(n, c) == nd' = IF nd[n].t.count = 0 THEN nd
                    ELSE With([nd EXCEPT ![n].kids = @ \cup {c}], c, Node(n, {}, nd[n].t))
\* a concept holding both, between parent and the two children
Merge(n, a, b, c) ==
    nd' = With([nd EXCEPT ![n].kids = (@ \ {a, b}) \cup {c}, ![a].par = c, ![b].par = c],
               c, Node(n, {a, b}, AddTable(nd[a].t, nd[b].t)))
\* the child is replaced by its children
Split(n, b) ==
    nd' = Without([x \in DOMAIN nd |-> IF x = n THEN [nd[n] EXCEPT !.kids = (@ \ {b}) \cup nd[b].kids]
                                      ELSE IF x \in nd[b].kids THEN [nd[x] EXCEPT !.par = n] ELSE nd[x]], b)

RECURSIVE Below(_)
Below(n) == {n} \cup UNION {Below(k) : k \in nd[n].kids}
Leaves == {n \in DOMAIN nd : nd[n].kids = {}}
IsTree == /\ nd[root].par = 0
          /\ \A n \in DOMAIN nd \ {root} : nd[n].par \in DOMAIN nd /\ n \in nd[nd[n].par].kids
          /\ \A n \in DOMAIN nd : \A k \in nd[n].kids : k \in DOMAIN nd /\ nd[k].par = n
          /\ Below(root) = DOMAIN nd
Additive(f, n) == f[n].kids # {} => f[n].t.count = ISum(f[n].kids, LAMBDA k : f[k].t.count)
=============================================================================
