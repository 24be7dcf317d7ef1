------------------------------ MODULE TraceEval -----------------------------
(* Recorded evaluations (C27).  Each call of the score function is recorded  *)
(* with the tree it saw; the model's tree follows the protocol and each      *)
(* score must be the one a concept the model categorises to would give.      *)
EXTENDS TraceQuery, Evaluation
VARIABLE ph        \* "sync": bring the model to the tree of this call; "judge"
P == Traces[tr].proto
EInit == TInit /\ ph = "sync"

Hide(i, a) == [nom |-> [x \in DOMAIN i.nom \ {a} |-> i.nom[x]], num |-> [x \in DOMAIN i.num \ {a} |-> i.num[x]]]
Abs(fn, v) == CASE fn = "error" -> v [] fn = "absolute_error" -> BAbs(v) [] fn = "squared_error" -> FMul(v, v)
\* results (number, or "refuses" / "any" where the contract says so) for outcome o
ErrOk(t, a, e, o) ==
    CASE e.val = "#num" /\ o = "#num" -> ~e.exc /\ Cl(e.res, Abs(e.fn, BSub(FVal(e.x), SMean(t.num[a]))))
      [] e.val = "#num" /\ o = "#none" -> e.exc
      [] e.val = "#none" /\ o = "#num" -> e.exc
      [] e.val = "#num" -> TRUE                         \* a number against a symbol
      [] OTHER -> ~e.exc /\ Cl(e.res, IF o = e.val THEN FZero ELSE FOne)
ScoreOk(t, a, e) ==
    IF e.val = "#comp" THEN e.exc      \* components are refused
    ELSE IF e.fn = "probability"
    THEN /\ ~e.exc
         /\ Cl(e.res, IF e.val = "#num" THEN Density(t, a, e.x)
                      ELSE IF t.count = 0 THEN (IF e.val = "#none" THEN FOne ELSE FZero)
                      ELSE FRat(Get(Weights(t, a, TRUE), e.val, 0), t.count))
    ELSE \E o \in Allowed(t, a, "m", TRUE) : ErrOk(t, a, e, o)

Synced(e, k) ==
    LET r == Rec(e.post) IN
    IF ~P.flat
    THEN Clause("each call sees a tree that has learned as many instances as were scored before it in the run",
                r[e.post.root].t.count = (IF k > Calls(P) THEN RowLen(P) ELSE PosOf(P, k) - 1))
    ELSE Clause("each call sees a tree that has learned exactly the instances scored before it in the run",
                TreeLike(e.post) /\ TableMatches(T(root), r[e.post.root].t))
Judge(e, k) ==
    Clause("every instance is one of those given", e.id > 0 /\ e.id <= P.n)
    \cup Clause("no instance is scored twice in a run",
                \A j \in 1..k - 1 : RunOf(P, j) = RunOf(P, k) => Evs[j].id # e.id)
    \cup Clause("an unshuffled first run keeps the order given", ~P.rnd /\ RunOf(P, k) = 1 => e.id = PosOf(P, k))
    \cup Clause("the true value is handed to the score function", e.truth)
    \cup Clause("the score is that of the concept found without the target attribute",
                P.flat /\ e.judge => \E n \in Categorize(Hide(e.inst, e.attr)) : ScoreOk(T(n), e.attr, e))
    \cup Clause("scoring leaves instance and tree alone", e.same)
Ids2 == [j \in 1..Len(Evs) - 1 |-> Evs[j].id]
End(e) ==
    Clause("one score for each instance of each run", Len(Evs) - 1 = Calls(P))
    \cup Clause("the table has one row per run and one score per instance", e.table = Table(P))
    \cup Clause("the instances are left alone", e.same)
    \cup Clause("without a spy the same table results", e.plain)
    \cup UNION {LET p == e.probes[j] IN
            Clause("any value of any attribute is scored at the concept found without that attribute",
                   \E n \in Categorize(Hide(p.inst, p.attr)) : ScoreOk(T(n), p.attr, p))
            \cup Clause("scoring leaves instance and tree alone", p.same)
            : j \in IF Calls(P) > 0 /\ P.flat THEN DOMAIN e.probes ELSE {}}
    \cup Clause("a shuffled run has another order than the list it shuffles",
                P.long /\ Len(Evs) - 1 = Calls(P) =>
                   /\ P.rnd => RunIds(P, Ids2, 1) # [i \in 1..RowLen(P) |-> i]
                   /\ \A r \in 2..P.runs : RunIds(P, Ids2, r) # RunIds(P, Ids2, r - 1))
Sync ==
    LET e == Evs[l + 1]  k == l + 1 IN
    /\ ph = "sync" /\ e.op # "err" /\ ph' = "judge" /\ UNCHANGED <<tr, l>>
    /\ IF ~P.flat \/ Calls(P) = 0 \/ k > Calls(P) + 1 THEN UNCHANGED cvars
       ELSE IF PosOf(P, k) = 1 /\ k <= Calls(P) THEN ClearEv(e)
       ELSE Follow([post |-> e.post, ret |-> 0, inst |-> Evs[l].inst])
Judged ==
    LET e == Evs[l + 1]  k == l + 1 IN
    /\ ph = "judge" \/ e.op = "err"
    /\ ph' = "sync" /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED cvars
    /\ Report(tr, k, CASE e.op = "err" -> {"an evaluation fails: " \o e.err}
                       [] e.op = "end" -> End(e) \cup (IF Calls(P) > 0 THEN Synced(e, k) ELSE {})
                       [] k > Calls(P) -> {"one score for each instance of each run"}
                       [] OTHER -> Synced(e, k) \cup Judge(e, k))
    /\ l' = Len(Evs) => Done(tr, l')
ENext == l < Len(Evs) /\ (Sync \/ Judged)
ESpec == EInit /\ [][ENext]_<<tvars, ph>>
=============================================================================
