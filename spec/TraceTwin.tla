------------------------------ MODULE TraceTwin ------------------------------
(* Recorded histories in which some steps must leave the tree alone (C06,    *)
(* C14) and pairs of histories that must lead to the same hierarchy (C13,    *)
(* C14, C15).                                                                *)
EXTENDS Twin, TraceLib
VARIABLES tr, l,
          st,     \* last observed state, in canonical form
          seen    \* hidden attribute -> value -> how often it was fitted
vars == <<tr, l, st, seen, bag, hier>>
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ st = None /\ seen = None /\ CTInit

Bump(f, i) ==               \* hidden symbols of a fitted flat instance
    FoldSet(LAMBDA a, g : IF Hidden(a)
                          THEN LET vs == Get(g, a, None)
                               IN With(g, a, With(vs, i.nom[a], Get(vs, i.nom[a], 0) + 1))
                          ELSE g, f, DOMAIN i.nom)
Twins(e, vis) == IsoTrees(e.a, e.b, vis)
SameLogs(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Close(FromLog(p[k]), FromLog(q[k]))

Often(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})

Verdict(e) ==
    CASE e.op \in {"state", "fit"} ->
           Clause("the call leaves its argument as it was", e.before = e.after)
      [] e.op = "query" ->
           Clause("a query changes the tree: " \o e.what, Canon(e.post, e.scales) = st)
           \cup Clause("a query changes its argument: " \o e.what, e.before = e.after)
      [] e.op = "arg" -> Clause("the call changes its argument: " \o e.what, e.before = e.after)
      [] e.op = "bad" ->
           Clause("an invalid instance is refused: " \o e.what, e.raised)
           \cup Clause("a refused instance leaves no trace: " \o e.what, Canon(e.post, e.scales) = st)
      [] e.op = "hidden" ->
           Clause("hidden attributes do not influence the hierarchy", Twins(e, TRUE))
           \cup Clause("hidden attributes do not influence categorisation", e.cata = e.catb)
           \cup Clause("hidden attributes do not influence utilities", SameLogs(e.ua, e.ub))
           \cup Clause("hidden attributes are counted",
                  e.flat => LET t == Rec(e.a)[e.a.root].t
                            IN \A a \in DOMAIN seen' : /\ a \in DOMAIN t.nom
                                                       /\ \A v \in DOMAIN seen'[a] : Get(t.nom[a], v, 0) = seen'[a][v])
           \cup Clause("hidden attributes can be predicted",
                  \A k \in 1..Len(e.preds) : e.preds[k].v \in DOMAIN Get(seen', e.preds[k].a, None))
      [] e.op = "still" -> Clause(e.what, Canon(e.post, e.scales) = st)
      [] e.op = "ids" -> Clause(e.what, Cardinality({e.ids[k] : k \in 1..Len(e.ids)}) = Len(e.ids))
      [] e.op = "near" -> Clause(e.what, SameLogs(e.x, e.y))
      [] e.op = "same" -> Clause(e.what, e.x = e.y)
      [] e.op = "twin" ->
           Clause(e.what, Twins(e, FALSE) /\ SameScales(e.as, e.bs))
      [] e.op = "batch" ->
           Clause("a batch is fitted exactly as often as asked",
                  /\ \A k \in 1..Len(e.ids) : \E j \in 1..Len(e.counts) : /\ e.counts[j].v = e.ids[k]
                                                                       /\ e.counts[j].c = e.times * Often(e.ids, e.ids[k])
                  /\ Len(e.counts) = Cardinality(Elems(e.ids))
                  /\ e.total = e.times * Len(e.ids))
           \cup Clause("the first pass follows the given order",
                  (~e.shuffle /\ Len(e.order) = e.times * Len(e.ids) /\ e.times > 0)
                     => \A k \in 1..Len(e.ids) : e.order[k] = e.ids[k])
           \cup Clause("every pass fits every instance once",
                  Len(e.order) = e.times * Len(e.ids) =>
                     \A p \in 0..(e.times - 1) :
                        LET o == SubSeq(e.order, p * Len(e.ids) + 1, (p + 1) * Len(e.ids)) IN
                        Elems(o) = Elems(e.ids) /\ \A k \in 1..Len(o) : Often(o, o[k]) = Often(e.ids, o[k]))
           \cup Clause("the caller's list is left alone", e.before = e.after)
      [] e.op = "err" -> {"a valid operation fails: " \o e.err}
TNext ==
    /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Evs[l + 1]
       IN /\ st' = IF e.op \in {"state", "fit"} THEN Canon(e.post, e.scales) ELSE st
          /\ seen' = IF e.op = "hidden" THEN Bump(seen, e.inst) ELSE seen
          /\ Report(tr, l + 1, Verdict(e))
    /\ UNCHANGED <<bag, hier>>
    /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_vars
=============================================================================
