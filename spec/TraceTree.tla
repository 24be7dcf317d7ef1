------------------------------ MODULE TraceTree ------------------------------
(* Recorded fit/clear histories of the real trees against ConceptTree:       *)
(* conservation of counts (C01), well-formed hierarchy (C02), identity,      *)
(* purity and permanence of leaves (C03), scales (C12), clear (C15).         *)
EXTENDS Snapshot, TraceLib
CONSTANT Prop
VARIABLES tr, l,
          all,      \* every instance fitted since the last clear, in order
          scl       \* scale name -> sample of fitted numbers
vars == <<tr, l, all, scl, bag, hier>>

Evs == Traces[tr].ev
Cfg   == Traces[tr].cfg

TInit == tr \in 1..Len(Traces) /\ l = 0 /\ all = <<>> /\ scl = None /\ CTInit

(* the leaves whose logged count differs from what they held before          *)
Gainers(s) == LET r == Rec(s)
              IN {n \in SLeaves(s) : r[n].t.count # Len(Get(bag, n, <<>>))}
RECURSIVE Concat(_)
Concat(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : TRUE IN Get(bag', x, <<>>) \o Concat(S \ {x})

Tables(s) ==
    LET r == Rec(s)
        leafTab == [n \in SLeaves(s) |-> Tally(Get(bag', n, <<>>))]
        Below(n) == FoldSet(LAMBDA x, t : AddTable(leafTab[x], t), EmptyTable, SBelow(r, n))
    IN Clause("the root table is the tally of every fitted instance",
                   TableMatches(Tally(all'), r[s.root].t))
       \cup Clause("a leaf's table is the tally of its instances",
                   \A n \in SLeaves(s) : TableMatches(leafTab[n], r[n].t))
       \cup Clause("an inner concept's table is the tally of the instances beneath it",
                   \A n \in Ids(s) \ SLeaves(s) : TableMatches(Below(n), r[n].t))

C01(e, s, g) ==
    IF ~TreeLike(s) THEN {"the concepts do not form a tree"} ELSE
       Clause("an instance must be stored at exactly one leaf", Cardinality(g) = 1)
       \cup Clause("the root gains exactly the values of the instance", e.gave = e.got)
       \cup Tables(s)

C02(e, s, g) ==
    LET r == Rec(s) IN
       Clause("no concept is reachable twice", ~s.shared)
       \cup Clause("concept ids are unique", Cardinality(Ids(s)) = Len(s.nodes))
       \cup Clause("the root has no parent", r[s.root].par = 0)
       \cup Clause("every child's parent is the concept that lists it",
                   \A n \in Ids(s) : \A k \in Elems(r[n].kids) : r[k].par = n)
       \cup Clause("every concept but the root is listed by its parent",
                   \A n \in Ids(s) \ {s.root} : r[n].par \in Ids(s) /\ n \in Elems(r[r[n].par].kids))
       \cup Clause("no child is listed twice",
                   \A n \in Ids(s) : Cardinality(Elems(r[n].kids)) = Len(r[n].kids))
       \cup Clause("an inner concept has at least two children",
                   \A n \in Ids(s) : Len(r[n].kids) # 1)
       \cup Clause("no concept is empty", \A n \in Ids(s) : r[n].t.count > 0)
       \cup Clause("every concept belongs to its tree", \A n \in Ids(s) : r[n].own)
       \cup Clause("the logged size of the tree is its number of concepts", e.num = Len(s.nodes))

C03(e, s, g) ==
    LET r == Rec(s)
        gain == IF e.ret \in Ids(s) THEN e.ret ELSE s.root
    IN Clause("fit returns a leaf of the tree", e.ret \in SLeaves(s))
       \cup Clause("the returned leaf is the one that gained the instance", e.ret \in g)
       \cup Clause("leaves are permanent", \A n \in DOMAIN bag : n \in SLeaves(s))
       \cup Clause("no leaf appears beyond the one returned",
                   \A n \in SLeaves(s) : n \in DOMAIN bag \/ n = e.ret)
       \cup Clause("an existing leaf only takes instances that look like its own",
                   e.ret \in DOMAIN bag => Look(bag[e.ret][1]) = Look(e.inst))
       \cup Clause("other leaves are unchanged",
                   \A n \in DOMAIN bag \cap SLeaves(s) : n # e.ret => r[n].t.count = Len(bag[n]))
       \cup Clause("the leaf returned holds the instance",
                   e.ret \in SLeaves(s) =>
                      TableMatches(Tally(Append(Get(bag, e.ret, <<>>), e.inst)), r[e.ret].t))

C12(e, s, g) ==
    Clause("the scale of an attribute is the statistics of every number fitted for it",
           /\ DOMAIN scl' = DOMAIN e.scales
           /\ \A a \in DOMAIN scl' : NumMatches(scl'[a], e.scales[a]))

Verdict(e, s, g) ==
    CASE Prop = "C01" -> C01(e, s, g)
      [] Prop = "C02" -> C02(e, s, g)
      [] Prop = "C03" -> C03(e, s, g)
      [] Prop = "C12" -> C12(e, s, g)

(* a long run of fits of which only the end is seen *)
BulkVerdict(e, s) ==
    CASE Prop = "C01" -> IF TreeLike(s) THEN Tables(s) ELSE {"the concepts do not form a tree"}
      [] Prop = "C02" -> C02(e, s, {})
      [] Prop = "C03" ->
           LET r == Rec(s) IN
           Clause("fit returns a leaf of the tree", \A k \in 1..Len(e.fits) : e.fits[k].ret \in SLeaves(s))
           \cup Clause("leaves are permanent", \A n \in DOMAIN bag : n \in SLeaves(s))
           \cup Clause("no leaf appears beyond those returned", \A n \in SLeaves(s) : n \in DOMAIN bag')
           \cup Clause("an existing leaf only takes instances that look like its own",
                       \A n \in DOMAIN bag' : \A k \in 1..Len(bag'[n]) : Look(bag'[n][k]) = Look(bag'[n][1]))
           \cup Clause("the leaf returned holds the instance",
                       \A n \in DOMAIN bag' \cap SLeaves(s) : TableMatches(Tally(bag'[n]), r[n].t))
      [] Prop = "C12" -> C12(e, s, {})
BulkEvent(e) ==
    /\ all' = all \o [k \in 1..Len(e.fits) |-> e.fits[k].inst]
    /\ scl' = IF Cfg.kind = "cobweb" THEN None ELSE ScaleAll(Cfg, scl, e.fits, 1)
    /\ bag' = PutAll(bag, e.fits, 1)
    /\ hier' = {}
    /\ Report(tr, l + 1, BulkVerdict(e, e.post))

FitEvent(e) ==
    LET s == e.post
        g == Gainers(s)
        \* the abstract Fit: the instance goes to the leaf that gained it
        to == IF g # {} THEN CHOOSE x \in g : (e.ret \in g => x = e.ret) ELSE e.ret
    IN /\ all' = Append(all, e.inst)
       /\ scl' = IF Cfg.kind = "cobweb" THEN None ELSE AddScales(Cfg, scl, e.inst)
       /\ bag' = With(bag, to, Append(Get(bag, to, <<>>), e.inst))
       /\ hier' = {}
       /\ Report(tr, l + 1, Verdict(e, s, g))
ClearEvent(e) ==
    /\ all' = <<>> /\ scl' = None /\ bag' = None /\ hier' = {}
    /\ Report(tr, l + 1,
         Clause("clear leaves a single empty concept that belongs to the tree",
                /\ Len(e.post.nodes) = 1
                /\ LET n == e.post.nodes[1] IN n.kids = <<>> /\ n.own /\ n.t.count = 0 /\ Attrs(n.t) = {} /\ n.par = 0)
         \cup Clause("clear forgets the scales", DOMAIN e.scales = {}))
ErrEvent(e) ==
    /\ UNCHANGED <<all, scl, bag, hier>>
    /\ Report(tr, l + 1, {"a valid operation fails: " \o e.err})

TNext ==
    /\ l < Len(Evs)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Evs[l + 1]
       IN CASE e.op = "fit"   -> FitEvent(e)
            [] e.op = "bulk"  -> BulkEvent(e)
            [] e.op = "clear" -> ClearEvent(e)
            [] e.op = "err"   -> ErrEvent(e)
    /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_vars
=============================================================================
