---------------------------- MODULE TraceChoice ----------------------------
(* Recorded calls of the helpers in utils (C29).                             *)
EXTENDS Choice, TraceLib
VARIABLES tr, l
Evs == Traces[tr].ev
LF(v) == FromLog(v)
RECURSIVE Samp(_, _, _)
Samp(xs, k, s) == IF k > Len(xs) THEN s ELSE Samp(xs, k + 1, SampleAdd(s, xs[k]))
Verdict(e) ==
    CASE e.op = "choice" ->
           LET c == e.ch IN
           Clause("the weighted choice refuses empty lists and negative weights",
                  (Refused(c) \/ Total(c) = 0) <=> e.werr)
           \cup Clause("the most likely choice refuses empty lists and negative weights", Refused(c) <=> e.merr)
           \cup Clause("the most likely choice has maximal weight",
                       ~e.merr => \A k \in 1..Len(e.ml) : e.ml[k] \in Likeliest(c))
           \cup Clause("the weighted choice has positive weight",
                       ~e.werr => \A k \in 1..Len(e.wc) : e.wc[k].v \in Possible(c))
           \cup Clause("alternatives are drawn in proportion to their weights",
                       ~e.werr => \A v \in Possible(c) :
                          LET got == FoldSet(LAMBDA k, a : IF e.wc[k].v = v THEN e.wc[k].c + a ELSE a, 0, 1..Len(e.wc))
                          IN Plausible(got, e.n, Weight(c, v), Total(c)))
      \* the draws were equally spaced over their range: shares are exact up to the ends of intervals
      [] e.op = "draws" ->
           LET c == e.ch  t == Total(c)
               Got(v) == FoldSet(LAMBDA k, a : IF e.wc[k].v = v THEN e.wc[k].c + a ELSE a, 0, 1..Len(e.wc))
               Off(v) == BSub(BMul(BFrom(Got(v)), BFrom(t)), BMul(BFrom(e.n), BFrom(Weight(c, v))))
               \* every occurrence of an alternative has an interval of its own
               most(v) == BMul(BFrom(Cardinality({k \in 1..Len(c) : c[k].v = v}) + 1), BFrom(t))
           IN Clause("every draw chooses an alternative of positive weight",
                     ~e.err /\ \A k \in 1..Len(e.edge) : e.edge[k] \in Possible(c))
              \cup Clause("each alternative has its share of the range of draws",
                     ~e.err => \A v \in Vals(c) : BLeq(BMul(Off(v), Off(v)), BMul(most(v), most(v))))
      [] e.op = "stats" ->
           LET s == Samp(e.xs, 1, NoSample) IN
           Clause("mean and deviation refuse an empty list", (Len(e.xs) = 0) <=> e.err)
           \cup Clause("the mean equals its definition", ~e.err => CloseTo(LF(e.mean), SMean(s), Tol9))
           \cup Clause("the deviation equals its definition",
                       ~e.err => CloseTo(FMul(LF(e.std), LF(e.std)), SPopVar(s), Tol6))
      [] e.op = "isnum" ->
           Clause("a number is a real number that is neither a boolean nor NaN", e.got = e.real)
      [] e.op = "c4" ->
           Clause("the small-sample correction equals its definition below 30 and is one from there",
                  CloseTo(FMul(LF(e.c), LF(e.c)), C4SqOf(e.n), Tol9))
      [] e.op = "err" -> {"a valid operation fails: " \o e.err}
TInit == tr \in 1..Len(Traces) /\ l = 0
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
