------------------------------ MODULE TraceOps ------------------------------
(* Recorded sequences of concept operations (C32).                           *)
EXTENDS Ops, TraceLib
VARIABLES tr, l
vars == <<tr, l, root, nd, bag, hier>>
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ OInit(Traces[tr].root) /\ CTInit

\* the observed hierarchy is the model's
Agrees(s) ==
    LET r == Rec(s) IN
    /\ TreeLike(s) /\ s.root = root /\ Ids(s) = DOMAIN nd'
    /\ \A n \in Ids(s) : /\ r[n].par = nd'[n].par /\ r[n].own
                         /\ Elems(r[n].kids) = nd'[n].kids /\ Len(r[n].kids) = Cardinality(nd'[n].kids)
                         /\ TableMatches(nd'[n].t, r[n].t)
Fresh(e) == e.ret \notin DOMAIN nd /\ e.ret > 0
Shaped(r, n, m, par) == \* the copied concept m is concept n
    LET RECURSIVE S(_, _, _)
        S(x, y, p) == /\ r[y].par = p /\ TableMatches(nd[x].t, r[y].t) /\ r[y].own
                      /\ Len(r[y].kids) = Cardinality(nd[x].kids)
                      /\ \A k \in nd[x].kids : \E j \in Elems(r[y].kids) : S(k, j, y)
    IN S(n, m, par)
What == [inc |-> "adding an instance changes exactly that concept's table", join |-> "adding a concept's counts changes exactly the table they are added to",
         new |-> "a new child holds exactly the instance", push |-> "pushing counts down makes one child with the same table",
         merge |-> "a merge puts one concept holding both between parent and children",
         split |-> "a split gives the children of the concept to its parent"]
Change(e) == /\ CASE e.op = "inc" -> Inc(e.n, e.inst)
                  [] e.op = "join" -> Join(e.n, e.a)
                  [] e.op = "new" -> NewChild(e.n, e.inst, e.ret)
                  [] e.op = "push" -> Push(e.n, e.ret)
                  [] e.op = "merge" -> Merge(e.n, e.a, e.b, e.ret)
                  [] e.op = "split" -> Split(e.n, e.a)
             /\ Report(tr, l + 1,
                  Clause(What[e.op], Agrees(e.post))
                  \cup Clause("an operation returns the concept it makes",
                              e.op \in {"new", "merge"} \/ (e.op = "push" /\ nd[e.n].t.count > 0) => Fresh(e)))
Copied(e) == /\ nd' = nd
             /\ Report(tr, l + 1,
                  Clause("using a copy leaves the tree alone", Agrees(e.post))
                  \cup IF e.op = "shallow"
                       THEN Clause("a shallow copy has the concept's table, parent and tree and no children",
                                   /\ e.copy.nodes[1].kids = <<>> /\ TableMatches(nd[e.n].t, e.copy.nodes[1].t)
                                   /\ e.copy.nodes[1].own /\ e.par = nd[e.n].par /\ e.copy.root \notin DOMAIN nd)
                       ELSE Clause("a copied concept is the concept with everything beneath it",
                                   /\ TreeLike(e.copy) /\ Ids(e.copy) \cap DOMAIN nd = {}
                                   /\ e.par = nd[e.n].par
                                   /\ Shaped(Rec(e.copy), e.n, e.copy.root, Rec(e.copy)[e.copy.root].par)))
\* Pushing down a concept that has children (the last event of a trace): what
\* lies beneath the new child is the library's business, but it has the
\* concept's table and no concept that was there changes.
PushedOver(e) ==
    LET s == e.post
        r == Rec(s)
        new(n) == IF n = e.n THEN {e.ret} ELSE {}
    IN /\ nd' = nd
       /\ Report(tr, l + 1,
            Clause("pushing down a concept that has children adds one child with the same table and changes no other concept",
                   /\ TreeLike(s) /\ s.root = root /\ DOMAIN nd \subseteq Ids(s) /\ Fresh(e) /\ e.ret \in Ids(s)
                   /\ \A n \in DOMAIN nd : /\ r[n].par = nd[n].par /\ r[n].own /\ TableMatches(nd[n].t, r[n].t)
                                           /\ Elems(r[n].kids) = nd[n].kids \cup new(n)
                                           /\ Len(r[n].kids) = Cardinality(nd[n].kids) + Cardinality(new(n))
                   /\ r[e.ret].par = e.n /\ r[e.ret].own /\ TableMatches(nd[e.n].t, r[e.ret].t)))
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED <<tr, root, bag, hier>>
         /\ LET e == Evs[l + 1] IN
            CASE e.op = "err" -> nd' = nd /\ Report(tr, l + 1, {"a valid operation fails: " \o e.err})
              [] e.op \in {"shallow", "copy"} -> Copied(e)
              [] e.op = "pushover" -> PushedOver(e)
              [] OTHER -> Change(e)
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_vars
=============================================================================
