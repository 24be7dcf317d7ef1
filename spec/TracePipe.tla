------------------------------ MODULE TracePipe -----------------------------
(* Recorded uses of pipelines (C35).                                         *)
EXTENDS Pipe, TraceLib
Tm == INSTANCE Terms
VARIABLES tr, l
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0
Each(q, F(_)) == [k \in 1..Len(q) |-> F(q[k])]
Pp(e) == Clause("a pipeline applies its parts one after the other",
                \A k \in 1..Len(e.in) : e.done[k] = Do(e.a, e.in[k]))
         \cup Clause("a pipeline is undone in reverse order, one-way parts being passed over",
                \A k \in 1..Len(e.in) : e.undone[k] = Undo(e.a, Do(e.a, e.in[k])))
         \cup Clause("a batch is processed element by element, in order",
                /\ e.bdone = Each(e.in, LAMBDA x : Do(e.a, x))
                /\ e.bundone = Each(e.in, LAMBDA x : Undo(e.a, Do(e.a, x))))
         \cup Clause("the rest of the instance passes unchanged and the argument is left alone", e.rest)
         \cup Clause("a preprocessor without transformation refuses", e.refuses)
Ch(e) == Clause("a pipeline of preprocessors is the preprocessors one after the other", Tm!Canon(e.whole) = Tm!Canon(e.parts))
         \cup Clause("undoing the whole chain restores the instance", Tm!Canon(e.back) = Tm!Canon(e.in))
         \cup Clause("undoing part by part is undoing the pipeline", Tm!Canon(e.pback) = Tm!Canon(e.back))
         \cup Clause("the argument is left alone", e.same)
Ba(e) == Clause("a batch is processed element by element, in order",
                /\ Len(e.done) = Len(e.singles) /\ Len(e.back) = Len(e.backs)
                /\ \A k \in 1..Len(e.done) : Tm!Canon(e.done[k]) = Tm!Canon(e.singles[k])
                /\ \A k \in 1..Len(e.back) : Tm!Canon(e.back[k]) = Tm!Canon(e.backs[k]))
         \cup Clause("the argument is left alone", e.same)
Verdict(e) == CASE e.op = "err" -> {"a valid instance cannot be processed: " \o e.err}
                [] e.op = "pipe" -> Pp(e) [] e.op = "chain" -> Ch(e) [] e.op = "batch" -> Ba(e)
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
