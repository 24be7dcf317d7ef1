------------------------------- MODULE Cobweb -------------------------------
(* The incremental concept formation machine of Cobweb and Cobweb/3.         *)
(*                                                                           *)
(* One fit is a sequence of micro-steps, one per iteration of the descent:   *)
(* StartFit, then Best / Merge / Split at inner concepts until LeafHit,      *)
(* Fringe or New ends it.  A choice is allowed when its utility is maximal   *)
(* up to Eps (ties are broken at random by the implementation).              *)
EXTENDS ConceptTree
VARIABLES
    nodes,     \* id -> [par, kids, t]
    root,      \* id of the root concept
    hist,      \* scale name -> sample of every number fitted so far
    pc,        \* "idle" | "fit" | "done"
    cur,       \* the concept being considered
    inst,      \* the instance being fitted
    out,       \* the concept returned by the last fit
    cfg        \* configuration of the tree
cvars == <<nodes, root, hist, pc, cur, inst, out, cfg, bag, hier>>

Eps == Tol9
NoInst == [nom |-> None, num |-> None]
Node(p, k, t) == [par |-> p, kids |-> k, t |-> t]
IsLeaf(n) == nodes[n].kids = {}
T(n) == nodes[n].t
SeqOf(S, f(_)) == FoldSet(LAMBDA x, acc : Append(acc, f(x)), <<>>, S)   \* some enumeration

CobwebInit(c, r) ==
    /\ nodes = [x \in {r} |-> Node(0, {}, EmptyTable)]
    /\ root = r /\ hist = None /\ pc = "idle" /\ cur = r /\ inst = NoInst /\ out = 0
    /\ cfg = c
    /\ CTInit

(* leaves and clusters of a node function *)
RECURSIVE LeavesIn(_, _)
LeavesIn(ns, n) == IF ns[n].kids = {} THEN {n} ELSE UNION {LeavesIn(ns, k) : k \in ns[n].kids}
HierOf(ns) == {LeavesIn(ns, n) : n \in DOMAIN ns}

(* ----------------------- scores of the operations ----------------------- *)
TempTables(ns, n, S) == SeqOf(S, LAMBDA k : ns[k].t)
RelScores(n, i, sc) == [k \in nodes[n].kids |-> RelCU(T(k), i, sc)]
MaxOf(f) == FoldSet(LAMBDA k, m : IF m = <<>> THEN f[k] ELSE FMax(m, f[k]), <<>>, DOMAIN f)
NearMax(f, k) == BLeq(BSub(MaxOf(f), f[k]), Eps)

CUInsert(n, b, i, sc) ==
    CU(AddInst(T(n), i), SeqOf(nodes[n].kids, LAMBDA k : IF k = b THEN AddInst(T(k), i) ELSE T(k)), sc)
CUNew(n, i, sc) ==
    CU(AddInst(T(n), i), Append(SeqOf(nodes[n].kids, T), AddInst(EmptyTable, i)), sc)
CUMerge(n, b1, b2, i, sc) ==
    CU(AddInst(T(n), i),
       Append(SeqOf(nodes[n].kids \ {b1, b2}, T), AddInst(AddTable(T(b1), T(b2)), i)), sc)
CUSplit(n, b, sc) ==
    CU(T(n), SeqOf((nodes[n].kids \ {b}) \cup nodes[b].kids, T), sc)
CUFringe(t, i, sc) == CU(AddInst(t, i), <<t, AddInst(EmptyTable, i)>>, sc)

(* The (b1, b2) pairs that count as "the two best children", and for each    *)
(* the operations whose utility is maximal.                                  *)
BestPairs(n, i, sc) ==
    LET rel == RelScores(n, i, sc)
        firsts == {k \in DOMAIN rel : NearMax(rel, k)}
    IN IF Cardinality(DOMAIN rel) = 1 THEN {<<k, k>> : k \in firsts}
       ELSE UNION {LET rest == [k \in DOMAIN rel \ {f} |-> rel[k]]
                   IN {<<f, s>> : s \in {k \in DOMAIN rest : NearMax(rest, k)}} : f \in firsts}
OpScores(n, b1, b2, i, sc) ==
    LET ops == {"best", "new"}
                 \cup (IF Cardinality(nodes[n].kids) > 2 THEN {"merge"} ELSE {})
                 \cup (IF nodes[b1].kids # {} THEN {"split"} ELSE {})
    IN [o \in ops |-> CASE o = "best"  -> CUInsert(n, b1, i, sc)
                        [] o = "new"   -> CUNew(n, i, sc)
                        [] o = "merge" -> CUMerge(n, b1, b2, i, sc)
                        [] o = "split" -> CUSplit(n, b1, sc)]
(* every <<operation, b1, b2>> the descent may take at n *)
OpChoices(n, i, sc) ==
    UNION {LET os == OpScores(n, p[1], p[2], i, sc)
           IN {<<o, p[1], p[2]>> : o \in {x \in DOMAIN os : NearMax(os, x)}} : p \in BestPairs(n, i, sc)}

(* ------------------------------ actions --------------------------------- *)
StartFit(i) ==
    /\ pc = "idle"
    /\ pc' = "fit" /\ cur' = root /\ inst' = i
    /\ hist' = AddScales(cfg, hist, i)
    /\ UNCHANGED <<nodes, root, out, cfg, bag, hier>>

ScNow == Scales(cfg, hist)
Finish(l, ns) ==
    /\ pc' = "done" /\ out' = l /\ cur' = l
    /\ bag' = With(bag, l, Append(Get(bag, l, <<>>), inst))
    /\ hier' = HierOf(ns)
    /\ UNCHANGED <<inst, hist, cfg>>
Continue(n, ns) ==
    /\ cur' = n /\ hier' = HierOf(ns)
    /\ UNCHANGED <<pc, inst, hist, cfg, bag, out>>

AtLeaf == pc = "fit" /\ IsLeaf(cur)
Fits == T(cur).count = 0 \/ Exact(T(cur), inst)

LeafHit ==
    /\ AtLeaf /\ Fits
    /\ nodes' = [nodes EXCEPT ![cur].t = AddInst(@, inst)]
    /\ root' = root
    /\ Finish(cur, nodes')

\* the leaf keeps its identity and becomes the first child of a new concept p
Fringe(p, n) ==
    /\ AtLeaf /\ ~Fits
    /\ LET par == nodes[cur].par
           t   == T(cur)
           n1  == With(With(nodes, p, Node(par, {cur, n}, AddInst(t, inst))),
                       n, Node(p, {}, AddInst(EmptyTable, inst)))
           n2  == [n1 EXCEPT ![cur].par = p]
       IN /\ nodes' = IF par = 0 THEN n2
                      ELSE [n2 EXCEPT ![par].kids = (@ \ {cur}) \cup {p}]
          /\ root' = IF par = 0 THEN p ELSE root
    /\ Finish(n, nodes')

Inner == pc = "fit" /\ ~IsLeaf(cur)
Best(b) ==
    /\ nodes' = [nodes EXCEPT ![cur].t = AddInst(@, inst)]
    /\ root' = root
    /\ Continue(b, nodes')
New(n) ==
    /\ nodes' = With([nodes EXCEPT ![cur].t = AddInst(@, inst), ![cur].kids = @ \cup {n}],
                     n, Node(cur, {}, AddInst(EmptyTable, inst)))
    /\ root' = root
    /\ Finish(n, nodes')
Merge(b1, b2, m) ==
    /\ nodes' = With([nodes EXCEPT ![cur].t = AddInst(@, inst),
                                   ![cur].kids = (@ \ {b1, b2}) \cup {m},
                                   ![b1].par = m, ![b2].par = m],
                     m, Node(cur, {b1, b2}, AddTable(T(b1), T(b2))))
    /\ root' = root
    /\ Continue(m, nodes')
Split(b) ==
    /\ nodes' = [x \in DOMAIN nodes \ {b} |->
                   IF x = cur THEN [nodes[x] EXCEPT !.kids = (@ \ {b}) \cup nodes[b].kids]
                   ELSE IF x \in nodes[b].kids THEN [nodes[x] EXCEPT !.par = cur]
                   ELSE nodes[x]]
    /\ root' = root
    /\ Continue(cur, nodes')

(* one micro-step; Fresh(S) yields candidate ids for new concepts            *)
Step(F) ==
    \/ LeafHit
    \/ \E p \in F : \E n \in F \ {p} : Fringe(p, n)
    \/ /\ Inner
       /\ \E c \in OpChoices(cur, inst, ScNow) :
            CASE c[1] = "best"  -> Best(c[2])
              [] c[1] = "new"   -> \E n \in F : New(n)
              [] c[1] = "merge" -> \E m \in F : Merge(c[2], c[3], m)
              [] c[1] = "split" -> Split(c[2])
Ready == pc = "done" /\ pc' = "idle"
         /\ UNCHANGED <<nodes, root, hist, cur, inst, out, cfg, bag, hier>>
ClearTo(r) ==
    /\ pc = "idle"
    /\ nodes' = [x \in {r} |-> Node(0, {}, EmptyTable)]
    /\ root' = r /\ hist' = None /\ cur' = r /\ inst' = NoInst /\ out' = 0
    /\ bag' = None /\ hier' = {}
    /\ UNCHANGED <<pc, cfg>>

(* --------------------------- categorisation ----------------------------- *)
RECURSIVE SortTo(_, _, _)
SortTo(n, i, sc) ==        \* the leaves reachable by always taking a best child
    IF IsLeaf(n) THEN {n}
    ELSE LET rel == RelScores(n, i, sc)
         IN UNION {SortTo(k, i, sc) : k \in {x \in DOMAIN rel : NearMax(rel, x)}}
Categorize(i) == SortTo(root, i, ScNow)

(* ----------------------------- invariants ------------------------------- *)
(* strict ancestors of the concept under consideration during a fit          *)
RECURSIVE Ancestors(_)
Ancestors(n) == IF nodes[n].par = 0 THEN {} ELSE {nodes[n].par} \cup Ancestors(nodes[n].par)
Pending == IF pc = "fit" THEN Ancestors(cur) ELSE {}

RECURSIVE BagsOf(_)
BagsOf(S) == IF S = {} THEN <<>>
             ELSE LET l == CHOOSE x \in S : TRUE IN Get(bag, l, <<>>) \o BagsOf(S \ {l})

Shape ==
    /\ root \in DOMAIN nodes /\ nodes[root].par = 0
    /\ \A n \in DOMAIN nodes :
         /\ n # root => nodes[n].par \in DOMAIN nodes /\ n \in nodes[nodes[n].par].kids
         /\ \A k \in nodes[n].kids : k \in DOMAIN nodes /\ nodes[k].par = n
         /\ Cardinality(nodes[n].kids) # 1
         /\ root \in {n} \cup Ancestors(n)
Conserved ==      \* also between the micro-steps of a fit
    \A n \in DOMAIN nodes :
        LET below == Tally(BagsOf(LeavesIn(nodes, n)))
        IN T(n) = IF n \in Pending THEN AddInst(below, inst) ELSE below
PureLeaves == \A l \in DOMAIN bag : l \in DOMAIN nodes /\ IsLeaf(l) /\ Pure(bag[l])
Laminate == bag # None => Laminar(hier, DOMAIN bag)
=============================================================================
