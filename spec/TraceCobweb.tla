----------------------------- MODULE TraceCobweb -----------------------------
(* Recorded fits against the Cobweb machine (C04).  A recorded fit is        *)
(* accepted when some sequence of micro-steps, every one of maximal utility, *)
(* turns the model's tree into exactly the recorded tree.  Unlogged choices  *)
(* (which operations, which ties) are found by TLC's search; ids of new      *)
(* concepts are bound to the ids that appear in the recorded tree.           *)
EXTENDS Cobweb, Snapshot, TraceLib
VARIABLES tr, l
tvars == <<cvars, tr, l>>
Evs == Traces[tr].ev
S2(q) == {q[k] : k \in 1..Len(q)}

Post == Evs[l + 1].post
PostIds == {Post.nodes[k].id : k \in 1..Len(Post.nodes)}
Matches ==
    /\ Post.root = root
    /\ DOMAIN nodes = PostIds
    /\ Len(Post.nodes) = Cardinality(PostIds)
    /\ \A k \in 1..Len(Post.nodes) :
         LET p == Post.nodes[k]  n == nodes[p.id]
         IN /\ p.par = n.par
            /\ S2(p.kids) = n.kids
            /\ TableMatches(n.t, p.t)

TInit == /\ tr \in 1..Len(Traces) /\ l = 0
         /\ CobwebInit(Traces[tr].cfg, Traces[tr].root)

TStart == /\ l < Len(Evs) /\ Evs[l + 1].op = "fit"
          /\ StartFit(Evs[l + 1].inst)
          /\ UNCHANGED <<tr, l>>
TStep  == /\ pc = "fit"
          /\ Step(PostIds \ DOMAIN nodes)
          \* a concept that is still there afterwards has not been split away
          /\ (DOMAIN nodes \ DOMAIN nodes') \cap PostIds = {}
          /\ UNCHANGED <<tr, l>>
TFinish == /\ pc = "done" /\ Evs[l + 1].ret = out /\ Matches
           /\ Ready
           /\ l' = l + 1 /\ tr' = tr
           /\ Done(tr, l')
TClear == /\ l < Len(Evs) /\ Evs[l + 1].op = "clear"
          /\ ClearTo(Post.root)
          /\ l' = l + 1 /\ tr' = tr
          /\ Done(tr, l')
\* many fits that were not watched: the machine goes on from the recorded tree
RECURSIVE Tab(_, _, _)
Tab(r, b, n) == IF r[n].kids = <<>> THEN Tally(Get(b, n, <<>>))
                ELSE FoldSet(LAMBDA k, t : AddTable(Tab(r, b, k), t), EmptyTable, Elems(r[n].kids))
TBulk == /\ l < Len(Evs) /\ Evs[l + 1].op = "bulk" /\ TreeLike(Post)
         /\ LET r == Rec(Post)  q == Evs[l + 1].fits
            IN /\ bag' = PutAll(bag, q, 1)
               /\ hist' = IF cfg.kind = "cobweb" THEN None ELSE ScaleAll(cfg, hist, q, 1)
               /\ root' = Post.root
               /\ nodes' = [n \in Ids(Post) |-> Node(r[n].par, Elems(r[n].kids), Tab(r, bag', n))]
         /\ UNCHANGED <<pc, cur, inst, out, cfg, hier>>
         /\ l' = l + 1 /\ tr' = tr
         /\ Done(tr, l')
TNext == TBulk \/ TStart \/ TStep \/ TFinish \/ TClear
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
